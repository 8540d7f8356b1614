From f3a90fb828b41b81081d1a1ccc7624c027e663c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:06 +0000
Subject: [PATCH 01/49] fix: do not overflow when folding the negation of
 INT_MIN

---
 crates/decy-core/src/optimize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index efcca84..ee695c8 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -129,7 +129,10 @@ fn fold_constants_expr(expr: HirExpression) -> HirExpression {
         HirExpression::UnaryOp { op, operand } => {
             let operand = fold_constants_expr(*operand);
             if let (decy_hir::UnaryOperator::Minus, HirExpression::IntLiteral(v)) = (op, &operand) {
-                return HirExpression::IntLiteral(-v);
+                // -INT_MIN is not representable: leave it unfolded
+                if let Some(negated) = v.checked_neg() {
+                    return HirExpression::IntLiteral(negated);
+                }
             }
             HirExpression::UnaryOp { op, operand: Box::new(operand) }
         }
-- 
2.43.0


From 63b96e50e2dbf56e114ba86b22e2111b294dc28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:07 +0000
Subject: [PATCH 02/49] fix: keep the scope of a declaring block when its
 branch condition is constant

---
 crates/decy-core/src/optimize.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index ee695c8..671d5b6 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -197,7 +197,20 @@ fn remove_dead_branches(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
     for stmt in stmts {
         match stmt {
             HirStatement::If { condition, then_block, else_block } => {
-                if let Some(always_true) = is_constant_truthy(&condition) {
+                // A block that declares variables has its own scope: splicing it into the
+                // enclosing statements would let its names shadow the outer ones.
+                let flattened = match is_constant_truthy(&condition) {
+                    Some(true) => Some(&then_block),
+                    Some(false) => else_block.as_ref(),
+                    None => None,
+                };
+                let scoped = flattened.is_some_and(|block| {
+                    block.iter().any(|s| matches!(s, HirStatement::VariableDeclaration { .. }))
+                });
+
+                if let Some(always_true) =
+                    is_constant_truthy(&condition).filter(|_| !scoped)
+                {
                     if always_true {
                         // if(1) { body } → body
                         result.extend(
-- 
2.43.0


From 2ff29e556a6f08701d696c4f63c7f71dc35c4e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:07 +0000
Subject: [PATCH 03/49] fix: keep a temporary whose type differs from the
 function's return type

---
 crates/decy-core/src/optimize.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index 671d5b6..cb430d6 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -29,9 +29,7 @@
 //! assert_eq!(optimized.body().len(), 1);
 //! ```
 
-#[cfg(test)]
-use decy_hir::HirType;
-use decy_hir::{BinaryOperator, HirExpression, HirFunction, HirStatement};
+use decy_hir::{BinaryOperator, HirExpression, HirFunction, HirStatement, HirType};
 
 /// Maximum number of fixed-point iterations.
 const MAX_ITERATIONS: usize = 3;
@@ -51,7 +49,7 @@ pub fn optimize_function(func: &HirFunction) -> HirFunction {
 
         body = body.into_iter().map(fold_constants_stmt).collect();
         body = remove_dead_branches(body);
-        body = eliminate_temporaries(body);
+        body = eliminate_temporaries_where(body, |ty| ty == func.return_type());
 
         if body != prev {
             changed = true;
@@ -267,7 +265,14 @@ fn is_constant_truthy(expr: &HirExpression) -> Option<bool> {
 ///
 /// Conservative: does NOT inline malloc/calloc/realloc results since
 /// downstream passes (box_transform) need the variable assignment pattern.
-fn eliminate_temporaries(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
+///
+/// Only temporaries whose declared type satisfies `inlinable` are removed: the
+/// declaration converts `expr` to its type, so it may only be dropped when the
+/// return performs that same conversion.
+fn eliminate_temporaries_where(
+    stmts: Vec<HirStatement>,
+    inlinable: impl Fn(&HirType) -> bool,
+) -> Vec<HirStatement> {
     if stmts.len() < 2 {
         return stmts;
     }
@@ -284,11 +289,12 @@ fn eliminate_temporaries(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
         // Check for pattern: let tmp = expr; return tmp;
         if i + 1 < stmts.len() {
             if let (
-                HirStatement::VariableDeclaration { name, initializer: Some(init_expr), .. },
+                HirStatement::VariableDeclaration { name, var_type, initializer: Some(init_expr) },
                 HirStatement::Return(Some(HirExpression::Variable(ret_var))),
             ) = (&stmts[i], &stmts[i + 1])
             {
                 if name == ret_var
+                    && inlinable(var_type)
                     && count_uses(name, &stmts[i + 2..]) == 0
                     && !is_allocation_expr(init_expr)
                 {
@@ -306,6 +312,12 @@ fn eliminate_temporaries(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
     result
 }
 
+/// Eliminate single-use temporaries of any type.
+#[cfg(test)]
+fn eliminate_temporaries(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
+    eliminate_temporaries_where(stmts, |_| true)
+}
+
 /// Check if an expression is an allocation (malloc, calloc, realloc, cast wrapping allocation).
 /// These should NOT be inlined because box_transform needs the variable pattern.
 fn is_allocation_expr(expr: &HirExpression) -> bool {
-- 
2.43.0


From 987dbe0461447e516cfa70d8aeffc15b759f613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:34 +0000
Subject: [PATCH 04/49] fix: parenthesise the operand of a unary operator when
 it is a binary operation or a cast

---
 crates/decy-codegen/src/expr_gen/calls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 221aefd..450d830 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -118,7 +118,12 @@ impl CodeGenerator {
             _ => {
                 let op_str = Self::unary_operator_to_string(op);
                 let operand_code = self.generate_expression_with_context(operand, ctx);
-                format!("{}{}", op_str, operand_code)
+                // Unary operators bind tighter than binary operators and casts
+                if matches!(operand, HirExpression::BinaryOp { .. } | HirExpression::Cast { .. }) {
+                    format!("{}({})", op_str, operand_code)
+                } else {
+                    format!("{}{}", op_str, operand_code)
+                }
             }
         }
     }
-- 
2.43.0


From 7fabea00034eaaec0d4c28a842668abfbafadef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:34 +0000
Subject: [PATCH 05/49] fix: parenthesise a cast on the left of < and <<

---
 crates/decy-codegen/src/expr_gen/binary_ops.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 6e41df2..8763b88 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -54,7 +54,11 @@ impl CodeGenerator {
         let right_code = self.generate_expression_with_context(right, ctx);
         let op_str = Self::binary_operator_to_string(op);
 
-        let left_str = if matches!(*left, HirExpression::BinaryOp { .. }) {
+        // After `as T`, a `<` or `<<` would be read as the start of generic arguments
+        let cast_before_angle = matches!(op, BinaryOperator::LessThan | BinaryOperator::LeftShift)
+            && left_code.contains(" as ");
+
+        let left_str = if matches!(*left, HirExpression::BinaryOp { .. }) || cast_before_angle {
             format!("({})", left_code)
         } else {
             left_code.clone()
-- 
2.43.0


From 14006f63ea96c9860a6d422c25ba74aba9f40752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:34 +0000
Subject: [PATCH 06/49] fix: keep the grouping of the other operand in
 arithmetic with a character literal

---
 crates/decy-codegen/src/expr_gen/binary_ops.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 8763b88..5ddac64 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -370,6 +370,11 @@ impl CodeGenerator {
             let left_type = ctx.infer_expression_type(left);
             if matches!(left_type, Some(HirType::Int)) {
                 let left_code = self.generate_expression_with_context(left, ctx);
+                let left_code = if matches!(left, HirExpression::BinaryOp { .. }) {
+                    format!("({})", left_code)
+                } else {
+                    left_code
+                };
                 let op_str = Self::binary_operator_to_string(op);
                 return Some(format!("({} {} {}i32)", left_code, op_str, *c as i32));
             }
@@ -378,6 +383,11 @@ impl CodeGenerator {
             let right_type = ctx.infer_expression_type(right);
             if matches!(right_type, Some(HirType::Int)) {
                 let right_code = self.generate_expression_with_context(right, ctx);
+                let right_code = if matches!(right, HirExpression::BinaryOp { .. }) {
+                    format!("({})", right_code)
+                } else {
+                    right_code
+                };
                 let op_str = Self::binary_operator_to_string(op);
                 return Some(format!("({}i32 {} {})", *c as i32, op_str, right_code));
             }
-- 
2.43.0


From aca49cbb433b7713d284277ddb71ef8ecff6ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:35 +0000
Subject: [PATCH 07/49] fix: escape the backslash and quote character literals

---
 crates/decy-codegen/src/expr_gen/literals.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/literals.rs b/crates/decy-codegen/src/expr_gen/literals.rs
index 7b106e9..b3c418d 100644
--- a/crates/decy-codegen/src/expr_gen/literals.rs
+++ b/crates/decy-codegen/src/expr_gen/literals.rs
@@ -119,6 +119,8 @@ impl CodeGenerator {
         let val = c as u8;
         if val == 0 {
             "0u8".to_string()
+        } else if val == b'\\' || val == b'\'' {
+            format!("b'\\{}'", val as char)
         } else if val.is_ascii_graphic() || val == b' ' {
             format!("b'{}'", val as char)
         } else {
-- 
2.43.0


From 86c5df918acf2f8bd8f159b8bf70821f591ab3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:10 +0000
Subject: [PATCH 08/49] fix: perform the increment of a for loop on continue

---
 crates/decy-codegen/src/stmt_gen.rs | 49 +++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 718e1df..b669f3b 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -659,8 +659,8 @@ impl CodeGenerator {
             code.push_str("loop {\n");
         }
 
-        // Generate loop body
-        for stmt in body {
+        // Generate loop body; a `continue` still performs the increment, as in C
+        for stmt in &Self::increment_before_continue(body, increment) {
             code.push_str("    ");
             code.push_str(&self.generate_statement_with_context(
                 stmt,
@@ -687,6 +687,51 @@ impl CodeGenerator {
         code
     }
 
+    /// Insert the increment of a `for` loop before every `continue` that belongs to it.
+    ///
+    /// The loop is emitted as `while cond { body; increment }`, where a plain `continue`
+    /// would skip the increment. Nested loops keep their own `continue`.
+    fn increment_before_continue(
+        body: &[HirStatement],
+        increment: &[HirStatement],
+    ) -> Vec<HirStatement> {
+        let mut result = Vec::with_capacity(body.len());
+        for stmt in body {
+            match stmt {
+                HirStatement::Continue => {
+                    result.extend_from_slice(increment);
+                    result.push(HirStatement::Continue);
+                }
+                HirStatement::If { condition, then_block, else_block } => {
+                    result.push(HirStatement::If {
+                        condition: condition.clone(),
+                        then_block: Self::increment_before_continue(then_block, increment),
+                        else_block: else_block
+                            .as_ref()
+                            .map(|block| Self::increment_before_continue(block, increment)),
+                    });
+                }
+                HirStatement::Switch { condition, cases, default_case } => {
+                    result.push(HirStatement::Switch {
+                        condition: condition.clone(),
+                        cases: cases
+                            .iter()
+                            .map(|case| decy_hir::SwitchCase {
+                                value: case.value.clone(),
+                                body: Self::increment_before_continue(&case.body, increment),
+                            })
+                            .collect(),
+                        default_case: default_case
+                            .as_ref()
+                            .map(|block| Self::increment_before_continue(block, increment)),
+                    });
+                }
+                other => result.push(other.clone()),
+            }
+        }
+        result
+    }
+
     /// Generate a switch statement as a Rust match expression.
     fn generate_switch_statement(
         &self,
-- 
2.43.0


From 713651d6a9233ddd4087a5d1cf843164a454892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:44 +0000
Subject: [PATCH 09/49] fix: convert the comparison of an int with a character
 literal to int where an int is expected

---
 crates/decy-codegen/src/expr_gen/binary_ops.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 5ddac64..86c4251 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -34,6 +34,9 @@ impl CodeGenerator {
 
         if is_comparison {
             if let Some(result) = self.gen_expr_binary_char_int_comparison(op, left, right, ctx) {
+                if let Some(HirType::Int) = target_type {
+                    return format!("{} as i32", result);
+                }
                 return result;
             }
         }
-- 
2.43.0


From c04b5d0f2114ab315901ced85c1ec884ec375d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:44 +0000
Subject: [PATCH 10/49] fix: do not emit the unreachable statements after the
 break of a switch case

---
 crates/decy-codegen/src/stmt_gen.rs | 40 +++++++++++++++--------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index b669f3b..6323f2b 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -774,18 +774,19 @@ impl CodeGenerator {
                 };
                 code.push_str(&format!("    {} => {{\n", case_pattern));
 
-                // Generate case body (filter out Break statements)
+                // Generate case body (up to its Break: what follows is unreachable)
                 for stmt in &case.body {
-                    if !matches!(stmt, HirStatement::Break) {
-                        code.push_str("        ");
-                        code.push_str(&self.generate_statement_with_context(
-                            stmt,
-                            function_name,
-                            ctx,
-                            return_type,
-                        ));
-                        code.push('\n');
+                    if matches!(stmt, HirStatement::Break) {
+                        break;
                     }
+                    code.push_str("        ");
+                    code.push_str(&self.generate_statement_with_context(
+                        stmt,
+                        function_name,
+                        ctx,
+                        return_type,
+                    ));
+                    code.push('\n');
                 }
 
                 code.push_str("    },\n");
@@ -796,16 +797,17 @@ impl CodeGenerator {
         code.push_str("    _ => {\n");
         if let Some(default_stmts) = default_case {
             for stmt in default_stmts {
-                if !matches!(stmt, HirStatement::Break) {
-                    code.push_str("        ");
-                    code.push_str(&self.generate_statement_with_context(
-                        stmt,
-                        function_name,
-                        ctx,
-                        return_type,
-                    ));
-                    code.push('\n');
+                if matches!(stmt, HirStatement::Break) {
+                    break;
                 }
+                code.push_str("        ");
+                code.push_str(&self.generate_statement_with_context(
+                    stmt,
+                    function_name,
+                    ctx,
+                    return_type,
+                ));
+                code.push('\n');
             }
         }
         code.push_str("    },\n");
-- 
2.43.0


From b91ec59b1d8c8206cde99363d10d1b93e760e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:34 +0000
Subject: [PATCH 11/49] hook: let the parser return a given AST under --cfg
 decy_verif

---
 crates/decy-parser/src/lib.rs    |  2 ++
 crates/decy-parser/src/parser.rs | 41 ++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/crates/decy-parser/src/lib.rs b/crates/decy-parser/src/lib.rs
index cc5ebb3..b80a90b 100644
--- a/crates/decy-parser/src/lib.rs
+++ b/crates/decy-parser/src/lib.rs
@@ -6,6 +6,8 @@
 #![warn(clippy::all)]
 // Note: clang-sys requires unsafe for FFI, but we allow it only in this crate
 #![allow(unsafe_code)]
+// `decy_verif` guards the verification hook in `parser`
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 #[allow(unused_macros)]
diff --git a/crates/decy-parser/src/parser.rs b/crates/decy-parser/src/parser.rs
index 54840e3..8c3eee1 100644
--- a/crates/decy-parser/src/parser.rs
+++ b/crates/decy-parser/src/parser.rs
@@ -68,6 +68,27 @@ fn discover_system_includes() -> Vec<String> {
     includes
 }
 
+/// Verification hook (only with `--cfg decy_verif`): an AST that the next parse returns instead of
+/// asking libclang, so that everything behind the parser can be checked without it.
+#[cfg(decy_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    use super::Ast;
+    use std::sync::Mutex;
+
+    static AST: Mutex<Option<Ast>> = Mutex::new(None);
+
+    pub fn install(ast: Ast) {
+        *AST.lock().unwrap() = Some(ast);
+    }
+    pub fn installed() -> bool {
+        AST.lock().unwrap().is_some()
+    }
+    pub fn take() -> Option<Ast> {
+        AST.lock().unwrap().take()
+    }
+}
+
 /// C parser using clang-sys.
 ///
 /// # Examples
@@ -101,6 +122,11 @@ impl CParser {
     /// # Ok::<(), anyhow::Error>(())
     /// ```
     pub fn new() -> Result<Self> {
+        #[cfg(decy_verif)]
+        if verif::installed() {
+            return Ok(Self { index: std::ptr::null_mut(), system_includes: Vec::new() });
+        }
+
         // SAFETY: clang_createIndex is safe to call with these parameters
         let index = unsafe { clang_createIndex(0, 0) };
         if index.is_null() {
@@ -135,6 +161,11 @@ impl CParser {
     /// ```
     #[allow(clippy::disallowed_methods)] // CString::new with literals cannot fail
     pub fn parse(&self, source: &str) -> Result<Ast> {
+        #[cfg(decy_verif)]
+        if let Some(ast) = verif::take() {
+            return Ok(ast);
+        }
+
         let filename = CString::new("input.c").context("Failed to create filename")?;
         let source_cstr = CString::new(source).context("Failed to convert source to CString")?;
 
@@ -287,6 +318,11 @@ impl CParser {
     #[allow(clippy::disallowed_methods)] // CString::new with literals cannot fail
     pub fn parse_file(&self, path: &Path) -> Result<Ast> {
         contract_pre_parse!();
+        #[cfg(decy_verif)]
+        if let Some(ast) = verif::take() {
+            return Ok(ast);
+        }
+
         let source = std::fs::read_to_string(path)
             .with_context(|| format!("Failed to read file: {}", path.display()))?;
 
@@ -444,6 +480,11 @@ impl CParser {
 
 impl Drop for CParser {
     fn drop(&mut self) {
+        #[cfg(decy_verif)]
+        if self.index.is_null() {
+            return;
+        }
+
         // SAFETY: Disposing of valid clang index
         unsafe {
             clang_disposeIndex(self.index);
-- 
2.43.0


From 793fac89ac84b9f97e3356fd12960d155616e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:21 +0000
Subject: [PATCH 12/49] fix: roll back to a version older than the active one

---
 crates/decy-ownership/src/model_versioning.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-ownership/src/model_versioning.rs b/crates/decy-ownership/src/model_versioning.rs
index 484a436..b9e53b4 100644
--- a/crates/decy-ownership/src/model_versioning.rs
+++ b/crates/decy-ownership/src/model_versioning.rs
@@ -371,8 +371,8 @@ impl ModelVersionManager {
             .versions
             .iter()
             .enumerate()
+            .take(current_idx) // Only versions older than the current one
             .rev()
-            .skip(1) // Skip current
             .find(|(_, e)| !e.rolled_back)
             .map(|(i, _)| i)
             .ok_or("No previous version available for rollback")?;
-- 
2.43.0


From 3588cdd3855ba0045b1852a4547e748bf12c99ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:21 +0000
Subject: [PATCH 13/49] fix: keep the version history within its maximum when
 the oldest version is active

---
 crates/decy-ownership/src/model_versioning.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/decy-ownership/src/model_versioning.rs b/crates/decy-ownership/src/model_versioning.rs
index b9e53b4..bf5e525 100644
--- a/crates/decy-ownership/src/model_versioning.rs
+++ b/crates/decy-ownership/src/model_versioning.rs
@@ -564,9 +564,10 @@ impl ModelVersionManager {
 
     fn prune_history(&mut self) {
         while self.versions.len() > self.max_history {
-            // Don't remove active version
+            // Don't remove active version: drop the next oldest instead
             if self.active_index == Some(0) {
-                break;
+                self.versions.remove(1);
+                continue;
             }
 
             self.versions.pop_front();
-- 
2.43.0


From 442cdefd9a52bd73234b0e4c42f1c770e3940a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:36 +0000
Subject: [PATCH 14/49] hook: record the source text given to the parser under
 --cfg decy_verif

---
 crates/decy-parser/src/parser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/decy-parser/src/parser.rs b/crates/decy-parser/src/parser.rs
index 8c3eee1..1586091 100644
--- a/crates/decy-parser/src/parser.rs
+++ b/crates/decy-parser/src/parser.rs
@@ -87,6 +87,16 @@ pub mod verif {
     pub fn take() -> Option<Ast> {
         AST.lock().unwrap().take()
     }
+
+    /// The source text that the last parse was given.
+    static SOURCE: Mutex<String> = Mutex::new(String::new());
+
+    pub fn set_source(s: &str) {
+        *SOURCE.lock().unwrap() = s.to_string();
+    }
+    pub fn source() -> String {
+        SOURCE.lock().unwrap().clone()
+    }
 }
 
 /// C parser using clang-sys.
@@ -163,6 +173,7 @@ impl CParser {
     pub fn parse(&self, source: &str) -> Result<Ast> {
         #[cfg(decy_verif)]
         if let Some(ast) = verif::take() {
+            verif::set_source(source);
             return Ok(ast);
         }
 
-- 
2.43.0


From f142a758b9de7171d846683b7f4701bfa8905f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:54 +0000
Subject: [PATCH 15/49] fix: take the file name of an #include from its first
 delimiter

---
 crates/decy-core/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index c2f0317..a439767 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -291,8 +291,8 @@ impl DependencyGraph {
             let trimmed = line.trim();
             if trimmed.starts_with("#include") {
                 // Extract filename from #include "file.h" or #include <file.h>
-                if let Some(start) = trimmed.find('"').or_else(|| trimmed.find('<')) {
-                    let end_char = if trimmed.chars().nth(start) == Some('"') { '"' } else { '>' };
+                if let Some(start) = trimmed.find(['"', '<']) {
+                    let end_char = if trimmed[start..].starts_with('"') { '"' } else { '>' };
                     if let Some(end) = trimmed[start + 1..].find(end_char) {
                         let filename = &trimmed[start + 1..start + 1 + end];
                         includes.push(filename.to_string());
@@ -560,7 +560,11 @@ fn preprocess_includes(
         // Check for #include directive
         if trimmed.starts_with("#include") {
             // Extract filename from #include "file.h" or #include <file.h>
-            let (filename, is_system) = if let Some(start) = trimmed.find('"') {
+            // The first delimiter decides: a quote may also stand in a trailing comment
+            let first = trimmed.find(['"', '<']);
+            let (filename, is_system) = if let Some(start) =
+                first.filter(|&i| trimmed[i..].starts_with('"'))
+            {
                 if let Some(end) = trimmed[start + 1..].find('"') {
                     let filename = &trimmed[start + 1..start + 1 + end];
                     (filename, false)
@@ -570,7 +574,7 @@ fn preprocess_includes(
                     result.push('\n');
                     continue;
                 }
-            } else if let Some(start) = trimmed.find('<') {
+            } else if let Some(start) = first {
                 if let Some(end) = trimmed[start + 1..].find('>') {
                     let filename = &trimmed[start + 1..start + 1 + end];
                     (filename, true)
-- 
2.43.0


From 8c4d7e5273ea00fe577eb7380219eb36a0417212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:54 +0000
Subject: [PATCH 16/49] fix: recognise an included file that is reached through
 a parent directory

---
 crates/decy-core/src/lib.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index a439767..a15d729 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -268,7 +268,7 @@ impl DependencyGraph {
             let file_dir = file.parent().unwrap_or_else(|| Path::new("."));
 
             for include in includes {
-                let include_path = file_dir.join(&include);
+                let include_path = normalize_path(&file_dir.join(&include));
 
                 // Only add dependency if the included file is in our file list
                 if graph.contains_file(&include_path) {
@@ -524,6 +524,25 @@ impl Default for TranspilationCache {
     }
 }
 
+/// Resolve `.` and `..` components lexically, so that one file has one path.
+fn normalize_path(path: &Path) -> PathBuf {
+    use std::path::Component;
+
+    let mut normalized = PathBuf::new();
+    for component in path.components() {
+        match component {
+            Component::CurDir => {}
+            Component::ParentDir
+                if matches!(normalized.components().next_back(), Some(Component::Normal(_))) =>
+            {
+                normalized.pop();
+            }
+            other => normalized.push(other),
+        }
+    }
+    normalized
+}
+
 /// Preprocess #include directives in C source code (DECY-056).
 ///
 /// Resolves and inlines #include directives recursively, tracking processed files
@@ -618,7 +637,7 @@ fn preprocess_includes(
             }
 
             // Resolve include path relative to base_dir
-            let include_path = base_dir.join(filename);
+            let include_path = normalize_path(&base_dir.join(filename));
 
             // Check if already processed (circular dependency or duplicate)
             if processed.contains(&include_path) {
-- 
2.43.0


From 4f371d1867de26dc9c759437f0215d75a6d1022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:54 +0000
Subject: [PATCH 17/49] fix: treat a dependency that was deleted or created as
 changed in the transpilation cache

---
 crates/decy-core/src/lib.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index a15d729..5c520eb 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -428,9 +428,9 @@ impl TranspilationCache {
         // Compute dependency hashes
         let mut dependency_hashes = HashMap::new();
         for dep_path in &transpiled.dependencies {
-            if let Ok(dep_hash) = self.compute_hash(dep_path) {
-                dependency_hashes.insert(dep_path.clone(), dep_hash);
-            }
+            // An unreadable dependency is recorded with an empty hash
+            let dep_hash = self.compute_hash(dep_path).unwrap_or_default();
+            dependency_hashes.insert(dep_path.clone(), dep_hash);
         }
 
         let entry = CacheEntry { hash, transpiled: transpiled.clone(), dependency_hashes };
@@ -456,11 +456,10 @@ impl TranspilationCache {
 
         // Check if any dependency has changed
         for (dep_path, cached_hash) in &entry.dependency_hashes {
-            if let Ok(current_dep_hash) = self.compute_hash(dep_path) {
-                if &current_dep_hash != cached_hash {
-                    self.misses += 1;
-                    return None;
-                }
+            let current_dep_hash = self.compute_hash(dep_path).unwrap_or_default();
+            if &current_dep_hash != cached_hash {
+                self.misses += 1;
+                return None;
             }
         }
 
-- 
2.43.0


From 204ad3234ba26d11a37314de74144bce8c35c31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:54 +0000
Subject: [PATCH 18/49] fix: find the error code anywhere in a message and do
 not slice inside a character

---
 crates/decy-core/src/metrics.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/decy-core/src/metrics.rs b/crates/decy-core/src/metrics.rs
index baecd77..f4ea361 100644
--- a/crates/decy-core/src/metrics.rs
+++ b/crates/decy-core/src/metrics.rs
@@ -143,11 +143,9 @@ impl CompileMetrics {
 /// - "some unknown error" -> "UNKNOWN"
 fn extract_error_code(message: &str) -> String {
     // Pattern: E followed by 4 digits
-    if let Some(start) = message.find('E') {
-        let rest = &message[start..];
-        if rest.len() >= 5 && rest[1..5].chars().all(|c| c.is_ascii_digit()) {
-            return rest[..5].to_string();
-        }
+    let is_code = |w: &[u8]| w[0] == b'E' && w[1..].iter().all(u8::is_ascii_digit);
+    if let Some(start) = message.as_bytes().windows(5).position(is_code) {
+        return message[start..start + 5].to_string();
     }
 
     // Try pattern with brackets: error[E0308]
-- 
2.43.0


From 583504e62ef3c80090d35f327cf7db8a0c4f585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:34 +0000
Subject: [PATCH 19/49] fix: give for loops a boolean condition the way while
 loops get one

---
 crates/decy-codegen/src/stmt_gen.rs | 37 +++++++++++++++--------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 6323f2b..d7a2254 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -451,20 +451,10 @@ impl CodeGenerator {
         code
     }
 
-    /// Generate a while statement.
-    fn generate_while_statement(
-        &self,
-        condition: &HirExpression,
-        body: &[HirStatement],
-        function_name: Option<&str>,
-        ctx: &mut TypeContext,
-        return_type: Option<&HirType>,
-    ) -> String {
-        let mut code = String::new();
-
-        // Generate while condition
+    /// Generate the condition of a `while` or `for` loop as a Rust `bool`.
+    fn generate_loop_condition(&self, condition: &HirExpression, ctx: &TypeContext) -> String {
         // DECY-138: Check for string iteration pattern: while (*str) → while !str.is_empty()
-        let cond_str = if let Some(str_var) = Self::get_string_deref_var(condition, ctx) {
+        if let Some(str_var) = Self::get_string_deref_var(condition, ctx) {
             format!("!{}.is_empty()", str_var)
         } else {
             // DECY-123: If condition is not already boolean, wrap appropriately
@@ -483,7 +473,21 @@ impl CodeGenerator {
                     format!("({}) != 0", cond_code)
                 }
             }
-        };
+        }
+    }
+
+    /// Generate a while statement.
+    fn generate_while_statement(
+        &self,
+        condition: &HirExpression,
+        body: &[HirStatement],
+        function_name: Option<&str>,
+        ctx: &mut TypeContext,
+        return_type: Option<&HirType>,
+    ) -> String {
+        let mut code = String::new();
+
+        let cond_str = self.generate_loop_condition(condition, ctx);
         code.push_str(&format!("while {} {{\n", cond_str));
 
         // Generate loop body
@@ -651,10 +655,7 @@ impl CodeGenerator {
 
         // Generate loop: `loop {}` for None (for(;;)), `while cond {}` for Some
         if let Some(cond) = condition {
-            code.push_str(&format!(
-                "while {} {{\n",
-                self.generate_expression_with_context(cond, ctx)
-            ));
+            code.push_str(&format!("while {} {{\n", self.generate_loop_condition(cond, ctx)));
         } else {
             code.push_str("loop {\n");
         }
-- 
2.43.0


From b52344e50c1fce6ebae56690b1cf11cf0b39f543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:34 +0000
Subject: [PATCH 20/49] fix: end the scope of a for-loop variable that reuses a
 name

---
 crates/decy-codegen/src/stmt_gen.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index d7a2254..0af34e1 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -642,6 +642,16 @@ impl CodeGenerator {
     ) -> String {
         let mut code = String::new();
 
+        // A variable the loop declares ends with it: where the name is already in use, keep it
+        // in a block of its own
+        let scoped = init.iter().any(|s| {
+            matches!(s, HirStatement::VariableDeclaration { name, .. }
+                if ctx.get_type(name).is_some())
+        });
+        if scoped {
+            code.push_str("{\n");
+        }
+
         // DECY-224: Generate ALL init statements before loop
         for init_stmt in init {
             code.push_str(&self.generate_statement_with_context(
@@ -685,6 +695,9 @@ impl CodeGenerator {
         }
 
         code.push('}');
+        if scoped {
+            code.push_str("\n}");
+        }
         code
     }
 
-- 
2.43.0


From eae5fdc296b1d829472a49f53207cd01bdf66bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:34 +0000
Subject: [PATCH 21/49] fix: keep function order in transpile_from_file_path

---
 crates/decy-core/src/lib.rs | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 5c520eb..7042175 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1354,23 +1354,7 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
         ast.functions().iter().map(HirFunction::from_ast_function).collect();
 
     // DECY-190: Deduplicate functions
-    let hir_functions: Vec<HirFunction> = {
-        use std::collections::HashMap;
-        let mut func_map: HashMap<String, HirFunction> = HashMap::new();
-
-        for func in all_hir_functions {
-            let name = func.name().to_string();
-            if let Some(existing) = func_map.get(&name) {
-                if func.has_body() && !existing.has_body() {
-                    func_map.insert(name, func);
-                }
-            } else {
-                func_map.insert(name, func);
-            }
-        }
-
-        func_map.into_values().collect()
-    };
+    let hir_functions = deduplicate_functions(all_hir_functions);
 
     // Convert structs to HIR
     let hir_structs: Vec<decy_hir::HirStruct> = ast
-- 
2.43.0


From 0660ef6be0e0001e02bc720eb1279d30a2846b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:34 +0000
Subject: [PATCH 22/49] fix: report compile metrics in a fixed order

---
 crates/decy-core/src/metrics.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/decy-core/src/metrics.rs b/crates/decy-core/src/metrics.rs
index f4ea361..3e2972e 100644
--- a/crates/decy-core/src/metrics.rs
+++ b/crates/decy-core/src/metrics.rs
@@ -6,7 +6,7 @@
 //! the 80% single-shot compile target.
 
 use serde::{Deserialize, Serialize};
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 /// Metrics for tracking compile success rate.
 ///
@@ -24,9 +24,18 @@ pub struct CompileMetrics {
     failures: u64,
 
     /// Error code histogram for failure analysis
+    #[serde(serialize_with = "serialize_sorted")]
     error_counts: HashMap<String, u64>,
 }
 
+/// Serialize a histogram in key order, so that equal metrics give equal text.
+fn serialize_sorted<S: serde::Serializer>(
+    counts: &HashMap<String, u64>,
+    serializer: S,
+) -> Result<S::Ok, S::Error> {
+    serializer.collect_map(counts.iter().collect::<BTreeMap<_, _>>())
+}
+
 impl CompileMetrics {
     /// Create a new empty metrics collector.
     pub fn new() -> Self {
@@ -119,7 +128,7 @@ impl CompileMetrics {
             report.push_str("|------------|-------|\n");
 
             let mut sorted_errors: Vec<_> = self.error_counts.iter().collect();
-            sorted_errors.sort_by(|a, b| b.1.cmp(a.1));
+            sorted_errors.sort_by(|a, b| b.1.cmp(a.1).then_with(|| a.0.cmp(b.0)));
 
             for (code, count) in sorted_errors {
                 report.push_str(&format!("| {} | {} |\n", code, count));
-- 
2.43.0


From 88383e64e105d4d520445ccbb6984fa4887bae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:35 +0000
Subject: [PATCH 23/49] fix: see writes through a pointer inside a switch

---
 crates/decy-ownership/src/dataflow.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/decy-ownership/src/dataflow.rs b/crates/decy-ownership/src/dataflow.rs
index db876cc..6c25b07 100644
--- a/crates/decy-ownership/src/dataflow.rs
+++ b/crates/decy-ownership/src/dataflow.rs
@@ -184,6 +184,11 @@ impl DataflowGraph {
             HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
                 body.iter().any(|s| self.statement_modifies_var(s, var))
             }
+            HirStatement::Switch { cases, default_case, .. } => cases
+                .iter()
+                .flat_map(|case| &case.body)
+                .chain(default_case.iter().flatten())
+                .any(|s| self.statement_modifies_var(s, var)),
             _ => false,
         }
     }
@@ -298,6 +303,11 @@ impl DataflowGraph {
             HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
                 body.iter().any(|s| self.statement_has_array_indexing(s, var))
             }
+            HirStatement::Switch { cases, default_case, .. } => cases
+                .iter()
+                .flat_map(|case| &case.body)
+                .chain(default_case.iter().flatten())
+                .any(|s| self.statement_has_array_indexing(s, var)),
             _ => false,
         }
     }
@@ -334,6 +344,11 @@ impl DataflowGraph {
             HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
                 body.iter().any(|s| self.statement_has_pointer_arithmetic(s, var))
             }
+            HirStatement::Switch { cases, default_case, .. } => cases
+                .iter()
+                .flat_map(|case| &case.body)
+                .chain(default_case.iter().flatten())
+                .any(|s| self.statement_has_pointer_arithmetic(s, var)),
             _ => false,
         }
     }
-- 
2.43.0


From d228677bbd51ef7559c875eb99677e0f7628118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:29 +0000
Subject: [PATCH 24/49] fix: read a statement without braces like one in braces

The body of a while loop without braces was dropped, the condition of an
else-if was dropped, and compound assignments, switch statements and
declarations-free do loops without braces were left out.
---
 crates/decy-parser/src/extract/expressions.rs | 29 +-------
 crates/decy-parser/src/extract/statements.rs  | 68 +++++--------------
 2 files changed, 19 insertions(+), 78 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 2df955f..b08986c 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -7,7 +7,7 @@ use std::ptr;
 
 use super::statements::{
     extract_assignment_stmt, extract_for_stmt, extract_if_stmt, extract_inc_dec_stmt,
-    extract_return_stmt, extract_switch_stmt, extract_var_decl, extract_while_stmt,
+    extract_return_stmt, extract_var_decl, extract_while_stmt,
 };
 use super::types::convert_type;
 
@@ -119,33 +119,6 @@ pub(crate) fn extract_expression_from_cursor(cursor: CXCursor) -> Option<Express
     }
 }
 
-/// Extract a single statement from a cursor (for non-compound for bodies)
-pub(crate) fn extract_single_statement(cursor: CXCursor) -> Option<Statement> {
-    let kind = unsafe { clang_getCursorKind(cursor) };
-    match kind {
-        CXCursor_IfStmt => extract_if_stmt(cursor),
-        CXCursor_ForStmt => extract_for_stmt(cursor),
-        CXCursor_WhileStmt => extract_while_stmt(cursor),
-        CXCursor_ReturnStmt => extract_return_stmt(cursor),
-        CXCursor_SwitchStmt => extract_switch_stmt(cursor),
-        CXCursor_UnaryOperator => extract_inc_dec_stmt(cursor),
-        CXCursor_BinaryOperator => extract_assignment_stmt(cursor),
-        CXCursor_CallExpr => {
-            if let Some(Expression::FunctionCall { function, arguments }) =
-                extract_function_call(cursor)
-            {
-                Some(Statement::FunctionCall { function, arguments })
-            } else {
-                None
-            }
-        }
-        CXCursor_BreakStmt => Some(Statement::Break),
-        CXCursor_ContinueStmt => Some(Statement::Continue),
-        CXCursor_DoStmt | CXCursor_NullStmt => None, // Not supported yet
-        _ => None,
-    }
-}
-
 /// Visitor callback for extracting expressions.
 ///
 /// # Safety
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 331ee8d..fe31a32 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -8,7 +8,7 @@ use std::ptr;
 use super::expressions::{
     extract_array_index, extract_binary_op, extract_binary_operator, extract_char_literal,
     extract_expression_from_cursor, extract_field_access, extract_float_literal,
-    extract_function_call, extract_int_literal, extract_single_statement, extract_statement,
+    extract_function_call, extract_int_literal, extract_statement,
     extract_unary_op, extract_variable_ref, try_extract_expression, visit_binary_operand,
     visit_expression,
 };
@@ -570,6 +570,19 @@ pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<State
     Some(Statement::CompoundAssignment { target, op, value: operands[1].clone() })
 }
 
+/// Extract the statements of a body: those between the braces, or the one that stands there
+/// without braces.
+pub(crate) fn extract_body(cursor: CXCursor) -> Vec<Statement> {
+    let mut body: Vec<Statement> = Vec::new();
+    let body_ptr = &mut body as *mut Vec<Statement> as CXClientData;
+    if visit_statement(cursor, cursor, body_ptr) == CXChildVisit_Recurse {
+        unsafe {
+            clang_visitChildren(cursor, visit_statement, body_ptr);
+        }
+    }
+    body
+}
+
 /// Extract an if statement.
 pub(crate) fn extract_if_stmt(cursor: CXCursor) -> Option<Statement> {
     // An if statement has 2 or 3 children:
@@ -646,44 +659,14 @@ pub(crate) extern "C" fn visit_if_children(
         1 => {
             // Second child: then block
             // DECY-216: Handle both compound statements (with braces) and single statements
-            if kind == CXCursor_CompoundStmt {
-                let body_ptr = &mut if_data.then_block as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
-                }
-            } else {
-                // Single statement without braces: if (cond) return 1;
-                if let Some(stmt) = extract_single_statement(cursor) {
-                    if_data.then_block.push(stmt);
-                }
-            }
+            if_data.then_block = extract_body(cursor);
             if_data.child_index += 1;
             CXChildVisit_Continue
         }
         2 => {
             // Third child (optional): else block
             // DECY-216: Handle compound, if-else chain, and single statement
-            if kind == CXCursor_CompoundStmt {
-                let mut else_stmts = Vec::new();
-                let body_ptr = &mut else_stmts as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
-                }
-                if_data.else_block = Some(else_stmts);
-            } else if kind == CXCursor_IfStmt {
-                // else if chain
-                let mut else_stmts = Vec::new();
-                let body_ptr = &mut else_stmts as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
-                }
-                if_data.else_block = Some(else_stmts);
-            } else {
-                // Single statement in else: else return 0;
-                if let Some(stmt) = extract_single_statement(cursor) {
-                    if_data.else_block = Some(vec![stmt]);
-                }
-            }
+            if_data.else_block = Some(extract_body(cursor));
             if_data.child_index += 1;
             CXChildVisit_Continue
         }
@@ -823,17 +806,7 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     let body_child = &collector.children[body_idx];
 
     // Extract body
-    if body_child.kind == CXCursor_CompoundStmt {
-        let body_ptr = &mut body as *mut Vec<Statement>;
-        unsafe {
-            clang_visitChildren(body_child.cursor, visit_statement, body_ptr as CXClientData);
-        }
-    } else {
-        // Single statement body - extract it
-        if let Some(stmt) = extract_single_statement(body_child.cursor) {
-            body.push(stmt);
-        }
-    }
+    body.extend(extract_body(body_child.cursor));
 
     // Process children before body
     let pre_body = &collector.children[..body_idx];
@@ -999,12 +972,7 @@ pub(crate) extern "C" fn visit_while_children(
         }
         1 => {
             // Second child: body
-            if kind == CXCursor_CompoundStmt {
-                let body_ptr = &mut while_data.body as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
-                }
-            }
+            while_data.body = extract_body(cursor);
             while_data.child_index += 1;
             CXChildVisit_Continue
         }
-- 
2.43.0


From 7cd1db04f4facae11524ab67f85eb6e0a9fb19a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:03 +0000
Subject: [PATCH 25/49] fix: keep all statements of a switch case

---
 crates/decy-parser/src/extract/statements.rs | 167 ++++++++++---------
 1 file changed, 85 insertions(+), 82 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index fe31a32..682f0d9 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -8,9 +8,8 @@ use std::ptr;
 use super::expressions::{
     extract_array_index, extract_binary_op, extract_binary_operator, extract_char_literal,
     extract_expression_from_cursor, extract_field_access, extract_float_literal,
-    extract_function_call, extract_int_literal, extract_statement,
-    extract_unary_op, extract_variable_ref, try_extract_expression, visit_binary_operand,
-    visit_expression,
+    extract_function_call, extract_int_literal, extract_unary_op, extract_variable_ref,
+    try_extract_expression, visit_binary_operand, visit_expression,
 };
 use super::types::convert_type;
 use super::visit_statement;
@@ -993,11 +992,17 @@ pub(crate) fn extract_switch_stmt(cursor: CXCursor) -> Option<Statement> {
         condition: Option<Expression>,
         cases: Vec<SwitchCase>,
         default_case: Option<Vec<Statement>>,
+        in_default: bool,
         child_index: u32,
     }
 
-    let mut switch_data =
-        SwitchData { condition: None, cases: Vec::new(), default_case: None, child_index: 0 };
+    let mut switch_data = SwitchData {
+        condition: None,
+        cases: Vec::new(),
+        default_case: None,
+        in_default: false,
+        child_index: 0,
+    };
 
     let data_ptr = &mut switch_data as *mut SwitchData;
 
@@ -1023,6 +1028,7 @@ pub(crate) extern "C" fn visit_switch_children(
         condition: Option<Expression>,
         cases: Vec<SwitchCase>,
         default_case: Option<Vec<Statement>>,
+        in_default: bool,
         child_index: u32,
     }
 
@@ -1064,6 +1070,7 @@ pub(crate) extern "C" fn visit_switch_body(
         condition: Option<Expression>,
         cases: Vec<SwitchCase>,
         default_case: Option<Vec<Statement>>,
+        in_default: bool,
         child_index: u32,
     }
 
@@ -1072,109 +1079,105 @@ pub(crate) extern "C" fn visit_switch_body(
 
     match kind {
         CXCursor_CaseStmt => {
-            // Extract case statement
-            if let Some(case) = extract_case_stmt(cursor) {
-                switch_data.cases.push(case);
-            }
+            // Extract case statement (and the ones labelling the same statement: case 1: case 2:)
+            extract_case_stmt(cursor, &mut switch_data.cases, &mut switch_data.default_case);
+            switch_data.in_default = ends_in_default(cursor);
             CXChildVisit_Continue
         }
         CXCursor_DefaultStmt => {
             // Extract default statement
-            if let Some(body) = extract_default_stmt(cursor) {
-                switch_data.default_case = Some(body);
+            extract_default_stmt(cursor, &mut switch_data.cases, &mut switch_data.default_case);
+            switch_data.in_default = ends_in_default(cursor);
+            CXChildVisit_Continue
+        }
+        _ => {
+            // A label holds only the statement right after it; the statements that follow
+            // belong to the last label
+            let stmts = extract_body(cursor);
+            if switch_data.in_default {
+                switch_data.default_case.get_or_insert_with(Vec::new).extend(stmts);
+            } else if let Some(case) = switch_data.cases.last_mut() {
+                case.body.extend(stmts);
             }
             CXChildVisit_Continue
         }
-        _ => CXChildVisit_Continue,
     }
 }
 
-/// Extract a case statement from a cursor.
-pub(crate) fn extract_case_stmt(cursor: CXCursor) -> Option<SwitchCase> {
-    // Case statement has 2 children:
-    // 1. Case value expression
-    // 2. Body (statements following the case label)
-
-    #[repr(C)]
-    struct CaseData {
-        value: Option<Expression>,
-        body: Vec<Statement>,
-        child_index: u32,
+/// The children of a cursor.
+fn child_cursors(cursor: CXCursor) -> Vec<CXCursor> {
+    extern "C" fn collect(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        let children = unsafe { &mut *(client_data as *mut Vec<CXCursor>) };
+        children.push(cursor);
+        CXChildVisit_Continue
     }
 
-    let mut case_data = CaseData { value: None, body: Vec::new(), child_index: 0 };
-
-    let data_ptr = &mut case_data as *mut CaseData;
-
+    let mut children: Vec<CXCursor> = Vec::new();
     unsafe {
-        clang_visitChildren(cursor, visit_case_children, data_ptr as CXClientData);
+        clang_visitChildren(cursor, collect, &mut children as *mut _ as CXClientData);
     }
-
-    Some(SwitchCase { value: case_data.value, body: case_data.body })
+    children
 }
 
-/// Visitor for case statement children.
-pub(crate) extern "C" fn visit_case_children(
-    cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    #[repr(C)]
-    struct CaseData {
-        value: Option<Expression>,
-        body: Vec<Statement>,
-        child_index: u32,
+/// Whether the innermost of the labels in front of a statement is `default:`.
+fn ends_in_default(label: CXCursor) -> bool {
+    match child_cursors(label).last() {
+        Some(&c) if is_label(c) => ends_in_default(c),
+        _ => (unsafe { clang_getCursorKind(label) }) == CXCursor_DefaultStmt,
     }
+}
 
-    let case_data = unsafe { &mut *(client_data as *mut CaseData) };
-    let _kind = unsafe { clang_getCursorKind(cursor) };
+fn is_label(cursor: CXCursor) -> bool {
+    let kind = unsafe { clang_getCursorKind(cursor) };
+    kind == CXCursor_CaseStmt || kind == CXCursor_DefaultStmt
+}
 
-    match case_data.child_index {
-        0 => {
-            // First child: case value expression
-            if let Some(expr) = try_extract_expression(cursor) {
-                case_data.value = Some(expr);
-            }
-            case_data.child_index += 1;
-            CXChildVisit_Continue
-        }
-        _ => {
-            // Subsequent children: statements in case body
-            // Extract statements until we hit another case or default
-            if let Some(stmt) = extract_statement(cursor) {
-                case_data.body.push(stmt);
-            }
-            // Continue recursing to find all statements in the case body
-            CXChildVisit_Recurse
-        }
+/// Extract a case statement from a cursor.
+///
+/// Case statement has 2 children: the case value expression and the labelled statement, which
+/// may carry further labels.
+pub(crate) fn extract_case_stmt(
+    cursor: CXCursor,
+    cases: &mut Vec<SwitchCase>,
+    default_case: &mut Option<Vec<Statement>>,
+) {
+    let children = child_cursors(cursor);
+    let value = children.first().and_then(|&c| try_extract_expression(c));
+    cases.push(SwitchCase { value, body: Vec::new() });
+    if let Some(&stmt) = children.get(1) {
+        let index = cases.len() - 1;
+        let body = extract_labelled(stmt, cases, default_case);
+        cases[index].body.extend(body);
     }
 }
 
 /// Extract a default statement from a cursor.
-pub(crate) fn extract_default_stmt(cursor: CXCursor) -> Option<Vec<Statement>> {
-    // Default statement has body statements as children
-    let mut body: Vec<Statement> = Vec::new();
-    let body_ptr = &mut body as *mut Vec<Statement>;
-
-    unsafe {
-        clang_visitChildren(cursor, visit_default_children, body_ptr as CXClientData);
+pub(crate) fn extract_default_stmt(
+    cursor: CXCursor,
+    cases: &mut Vec<SwitchCase>,
+    default_case: &mut Option<Vec<Statement>>,
+) {
+    default_case.get_or_insert_with(Vec::new);
+    if let Some(&stmt) = child_cursors(cursor).first() {
+        let body = extract_labelled(stmt, cases, default_case);
+        default_case.get_or_insert_with(Vec::new).extend(body);
     }
-
-    Some(body)
 }
 
-/// Visitor for default statement children.
-pub(crate) extern "C" fn visit_default_children(
+/// Extract the statement behind a case or default label.
+fn extract_labelled(
     cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    let body = unsafe { &mut *(client_data as *mut Vec<Statement>) };
-
-    // Extract all statements in default body
-    if let Some(stmt) = extract_statement(cursor) {
-        body.push(stmt);
+    cases: &mut Vec<SwitchCase>,
+    default_case: &mut Option<Vec<Statement>>,
+) -> Vec<Statement> {
+    match unsafe { clang_getCursorKind(cursor) } {
+        CXCursor_CaseStmt => extract_case_stmt(cursor, cases, default_case),
+        CXCursor_DefaultStmt => extract_default_stmt(cursor, cases, default_case),
+        _ => return extract_body(cursor),
     }
-
-    CXChildVisit_Continue
+    Vec::new()
 }
-- 
2.43.0


From 57447049a3613c4d3c1d15014be00970cd773be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:00 +0000
Subject: [PATCH 26/49] fix: read the bitwise and shift compound assignments

---
 crates/decy-parser/src/extract/statements.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 682f0d9..8f5a2a5 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -453,7 +453,7 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
     }
 }
 
-/// Extract a compound assignment statement (+=, -=, *=, /=, %=).
+/// Extract a compound assignment statement (+=, -=, *=, /=, %=, &=, |=, ^=, <<=, >>=).
 pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<Statement> {
     // Get the translation unit
     let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
@@ -490,6 +490,11 @@ pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<State
                         "*=" => Some(BinaryOperator::Multiply),
                         "/=" => Some(BinaryOperator::Divide),
                         "%=" => Some(BinaryOperator::Modulo),
+                        "&=" => Some(BinaryOperator::BitwiseAnd),
+                        "|=" => Some(BinaryOperator::BitwiseOr),
+                        "^=" => Some(BinaryOperator::BitwiseXor),
+                        "<<=" => Some(BinaryOperator::LeftShift),
+                        ">>=" => Some(BinaryOperator::RightShift),
                         _ => None,
                     };
                     if operator.is_some() {
-- 
2.43.0


From f5cfc6f208311c86d46a5384141e6afc84ebdcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 27/49] fix: read every form of expression as a condition

---
 crates/decy-parser/src/extract/expressions.rs | 24 +++-------
 crates/decy-parser/src/extract/statements.rs  | 46 ++-----------------
 2 files changed, 12 insertions(+), 58 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index b08986c..e412cd5 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -97,26 +97,16 @@ pub(crate) fn extract_statement(cursor: CXCursor) -> Option<Statement> {
     }
 }
 
-/// Extract expression from cursor for for-loop condition
+/// Extract the expression at a cursor: the condition of an if, a while or a for.
 pub(crate) fn extract_expression_from_cursor(cursor: CXCursor) -> Option<Expression> {
-    let kind = unsafe { clang_getCursorKind(cursor) };
-    match kind {
-        CXCursor_BinaryOperator => extract_binary_op(cursor),
-        CXCursor_IntegerLiteral => extract_int_literal(cursor),
-        107 => extract_float_literal(cursor), // CXCursor_FloatingLiteral
-        110 => extract_char_literal(cursor),  // CXCursor_CharacterLiteral
-        CXCursor_DeclRefExpr => extract_variable_ref(cursor),
-        CXCursor_CallExpr => extract_function_call(cursor),
-        CXCursor_UnaryOperator => extract_unary_op(cursor),
-        _ => {
-            let mut expr: Option<Expression> = None;
-            let expr_ptr = &mut expr as *mut Option<Expression>;
-            unsafe {
-                clang_visitChildren(cursor, visit_expression, expr_ptr as CXClientData);
-            }
-            expr
+    let mut expr: Option<Expression> = None;
+    let expr_ptr = &mut expr as *mut Option<Expression> as CXClientData;
+    if visit_expression(cursor, cursor, expr_ptr) == CXChildVisit_Recurse {
+        unsafe {
+            clang_visitChildren(cursor, visit_expression, expr_ptr);
         }
     }
+    expr
 }
 
 /// Visitor callback for extracting expressions.
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 8f5a2a5..ecaeaaf 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -6,10 +6,9 @@ use std::ffi::CStr;
 use std::ptr;
 
 use super::expressions::{
-    extract_array_index, extract_binary_op, extract_binary_operator, extract_char_literal,
-    extract_expression_from_cursor, extract_field_access, extract_float_literal,
-    extract_function_call, extract_int_literal, extract_unary_op, extract_variable_ref,
-    try_extract_expression, visit_binary_operand, visit_expression,
+    extract_array_index, extract_binary_op, extract_binary_operator,
+    extract_expression_from_cursor, extract_field_access, try_extract_expression,
+    visit_binary_operand, visit_expression,
 };
 use super::types::convert_type;
 use super::visit_statement;
@@ -633,30 +632,12 @@ pub(crate) extern "C" fn visit_if_children(
     }
 
     let if_data = unsafe { &mut *(client_data as *mut IfData) };
-    let kind = unsafe { clang_getCursorKind(cursor) };
 
     match if_data.child_index {
         0 => {
             // First child: condition expression
             // The cursor itself IS the condition, extract it directly
-            if_data.condition = match kind {
-                CXCursor_BinaryOperator => extract_binary_op(cursor),
-                CXCursor_IntegerLiteral => extract_int_literal(cursor),
-                107 => extract_float_literal(cursor), // CXCursor_FloatingLiteral
-                110 => extract_char_literal(cursor),  // CXCursor_CharacterLiteral
-                CXCursor_DeclRefExpr => extract_variable_ref(cursor),
-                CXCursor_CallExpr => extract_function_call(cursor),
-                CXCursor_UnaryOperator => extract_unary_op(cursor),
-                _ => {
-                    // For other expression types, try visiting children
-                    let mut cond_expr: Option<Expression> = None;
-                    let expr_ptr = &mut cond_expr as *mut Option<Expression>;
-                    unsafe {
-                        clang_visitChildren(cursor, visit_expression, expr_ptr as CXClientData);
-                    }
-                    cond_expr
-                }
-            };
+            if_data.condition = extract_expression_from_cursor(cursor);
             if_data.child_index += 1;
             CXChildVisit_Continue
         }
@@ -948,29 +929,12 @@ pub(crate) extern "C" fn visit_while_children(
     }
 
     let while_data = unsafe { &mut *(client_data as *mut WhileData) };
-    let kind = unsafe { clang_getCursorKind(cursor) };
 
     match while_data.child_index {
         0 => {
             // First child: condition expression
             // The cursor itself IS the condition, extract it directly
-            while_data.condition = match kind {
-                CXCursor_BinaryOperator => extract_binary_op(cursor),
-                CXCursor_IntegerLiteral => extract_int_literal(cursor),
-                107 => extract_float_literal(cursor), // CXCursor_FloatingLiteral
-                110 => extract_char_literal(cursor),  // CXCursor_CharacterLiteral
-                CXCursor_DeclRefExpr => extract_variable_ref(cursor),
-                CXCursor_CallExpr => extract_function_call(cursor),
-                CXCursor_UnaryOperator => extract_unary_op(cursor),
-                _ => {
-                    let mut cond_expr: Option<Expression> = None;
-                    let expr_ptr = &mut cond_expr as *mut Option<Expression>;
-                    unsafe {
-                        clang_visitChildren(cursor, visit_expression, expr_ptr as CXClientData);
-                    }
-                    cond_expr
-                }
-            };
+            while_data.condition = extract_expression_from_cursor(cursor);
             while_data.child_index += 1;
             CXChildVisit_Continue
         }
-- 
2.43.0


From 4fa4ab7f07a15ac7519ed50c8ccfdc313da6617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 28/49] fix: read integer literals in every base and with a
 suffix

---
 crates/decy-parser/src/extract/expressions.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index e412cd5..6d6a112 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -314,7 +314,7 @@ pub(crate) fn extract_int_literal(cursor: CXCursor) -> Option<Expression> {
             let token_cxstring = clang_getTokenSpelling(tu, *tokens);
             let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
             if let Ok(token_str) = c_str.to_str() {
-                value = token_str.parse().unwrap_or(0);
+                value = parse_int_literal(token_str);
             }
             clang_disposeString(token_cxstring);
 
@@ -336,6 +336,19 @@ pub(crate) fn extract_int_literal(cursor: CXCursor) -> Option<Expression> {
     Some(Expression::IntLiteral(value))
 }
 
+/// Parse the spelling of an integer literal: decimal, octal, hexadecimal or binary, with or
+/// without a suffix. A value that needs the 32nd bit keeps its bits.
+pub(crate) fn parse_int_literal(s: &str) -> i32 {
+    let digits = s.trim_end_matches(['u', 'U', 'l', 'L']);
+    let (digits, radix) = match digits.as_bytes() {
+        [b'0', b'x' | b'X', ..] => (&digits[2..], 16),
+        [b'0', b'b' | b'B', ..] => (&digits[2..], 2),
+        [b'0', _, ..] => (&digits[1..], 8),
+        _ => (digits, 10),
+    };
+    u32::from_str_radix(digits, radix).map_or(0, |value| value as i32)
+}
+
 /// DECY-207: Extract a floating-point literal expression.
 pub(crate) fn extract_float_literal(cursor: CXCursor) -> Option<Expression> {
     // SAFETY: Get the extent (source range) of the cursor
@@ -1335,6 +1348,10 @@ pub(crate) fn extract_unary_op(cursor: CXCursor) -> Option<Expression> {
 
     // Handle other unary operators
     if let Some(op) = operator {
+        // -2147483648: the digits alone already have the bits of the smallest int
+        if op == UnaryOperator::Minus && operand_expr == Expression::IntLiteral(i32::MIN) {
+            return Some(operand_expr);
+        }
         return Some(Expression::UnaryOp { op, operand: Box::new(operand_expr) });
     }
 
-- 
2.43.0


From 5710910f68fe424c2c9e5b0a1ea72b02a49782b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:12 +0000
Subject: [PATCH 29/49] fix: read character literals with a quote, an octal or
 a high escape

---
 crates/decy-parser/src/extract/expressions.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 6d6a112..e3a725e 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -471,7 +471,8 @@ pub(crate) fn extract_char_literal(cursor: CXCursor) -> Option<Expression> {
             let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
             if let Ok(token_str) = c_str.to_str() {
                 // Remove surrounding quotes from character literal
-                let inner = token_str.trim_matches('\'');
+                let inner = token_str.strip_prefix('\'').unwrap_or(token_str);
+                let inner = inner.strip_suffix('\'').unwrap_or(inner);
                 value = parse_char_literal(inner);
             }
             clang_disposeString(token_cxstring);
@@ -498,7 +499,6 @@ pub(crate) fn parse_char_literal(s: &str) -> i8 {
     if first == '\\' {
         // Escape sequence
         match chars.next() {
-            Some('0') => 0, // null character
             Some('n') => b'\n' as i8,
             Some('t') => b'\t' as i8,
             Some('r') => b'\r' as i8,
@@ -512,10 +512,10 @@ pub(crate) fn parse_char_literal(s: &str) -> i8 {
             Some('x') => {
                 // Hex escape: \xNN
                 let hex: String = chars.take(2).collect();
-                i8::from_str_radix(&hex, 16).unwrap_or(0)
+                u8::from_str_radix(&hex, 16).unwrap_or(0) as i8
             }
             Some(c) if c.is_ascii_digit() => {
-                // Octal escape: \NNN
+                // Octal escape: \NNN, with \0 the null character
                 let mut octal = String::new();
                 octal.push(c);
                 for _ in 0..2 {
@@ -527,7 +527,7 @@ pub(crate) fn parse_char_literal(s: &str) -> i8 {
                         }
                     }
                 }
-                i8::from_str_radix(&octal, 8).unwrap_or(0)
+                u16::from_str_radix(&octal, 8).unwrap_or(0) as i8
             }
             _ => first as i8,
         }
-- 
2.43.0


From cd2aa6657a5c50a1a5b5ac6ca0bac6ba5adc7360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:13 +0000
Subject: [PATCH 30/49] fix: read assignments next to a comparison or a comma

---
 crates/decy-parser/src/extract/mod.rs        |  4 ++
 crates/decy-parser/src/extract/statements.rs | 55 +-------------------
 2 files changed, 5 insertions(+), 54 deletions(-)

diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index a616ccb..e9a9dda 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -294,6 +294,10 @@ pub(crate) extern "C" fn visit_statement(
             CXChildVisit_Continue
         }
         CXCursor_BinaryOperator => {
+            // a = 1, b = 2: the operands of a comma are statements of their own
+            if expressions::extract_binary_operator(cursor) == Some(BinaryOperator::Comma) {
+                return CXChildVisit_Recurse;
+            }
             // Could be an assignment statement (x = 42)
             if let Some(stmt) = extract_assignment_stmt(cursor) {
                 statements.push(stmt);
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index ecaeaaf..2f2ee67 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -112,60 +112,7 @@ pub(crate) fn extract_return_stmt(cursor: CXCursor) -> Option<Statement> {
 /// Extract an assignment statement.
 pub(crate) fn extract_assignment_stmt(cursor: CXCursor) -> Option<Statement> {
     // Check if this binary operator is an assignment '=' (not '==', '!=', etc.)
-    // Get the translation unit
-    let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
-    if tu.is_null() {
-        return None;
-    }
-
-    // Get the extent (source range) of the cursor
-    let extent = unsafe { clang_getCursorExtent(cursor) };
-
-    // Tokenize to find the operator
-    let mut tokens = ptr::null_mut();
-    let mut num_tokens = 0;
-
-    unsafe {
-        clang_tokenize(tu, extent, &mut tokens, &mut num_tokens);
-    }
-
-    let mut is_assignment = false;
-
-    // Look through tokens to find '=' (and make sure it's not '==', '!=', etc.)
-    for i in 0..num_tokens {
-        unsafe {
-            let token = *tokens.add(i as usize);
-            let token_kind = clang_getTokenKind(token);
-
-            if token_kind == CXToken_Punctuation {
-                let token_cxstring = clang_getTokenSpelling(tu, token);
-                let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
-                if let Ok(token_str) = c_str.to_str() {
-                    // Only accept single '=' for assignment
-                    if token_str == "=" {
-                        is_assignment = true;
-                        clang_disposeString(token_cxstring);
-                        break;
-                    } else if token_str == "=="
-                        || token_str == "!="
-                        || token_str == "<="
-                        || token_str == ">="
-                    {
-                        // This is a comparison operator, not assignment
-                        clang_disposeString(token_cxstring);
-                        break;
-                    }
-                }
-                clang_disposeString(token_cxstring);
-            }
-        }
-    }
-
-    unsafe {
-        clang_disposeTokens(tu, tokens, num_tokens);
-    }
-
-    if !is_assignment {
+    if extract_binary_operator(cursor) != Some(BinaryOperator::Assign) {
         return None;
     }
 
-- 
2.43.0


From f514b62aa6b0b18c8cde2605533453b5093855c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:37 +0000
Subject: [PATCH 31/49] fix: tell the parts of a for loop by its semicolons

---
 crates/decy-parser/src/extract/statements.rs | 278 +++++--------------
 1 file changed, 67 insertions(+), 211 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 2f2ee67..610e367 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -6,9 +6,8 @@ use std::ffi::CStr;
 use std::ptr;
 
 use super::expressions::{
-    extract_array_index, extract_binary_op, extract_binary_operator,
-    extract_expression_from_cursor, extract_field_access, try_extract_expression,
-    visit_binary_operand, visit_expression,
+    extract_array_index, extract_binary_operator, extract_expression_from_cursor,
+    extract_field_access, try_extract_expression, visit_binary_operand, visit_expression,
 };
 use super::types::convert_type;
 use super::visit_statement;
@@ -608,234 +607,91 @@ pub(crate) extern "C" fn visit_if_children(
 
 /// Extract a for loop statement.
 pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
-    // DECY-200: Two-pass approach to handle for loops with empty parts
-    // Clang skips empty parts entirely, so we can't rely on fixed indices
-    //
-    // Pass 1: Collect all children with their cursor kinds
-    // Pass 2: Identify what each child represents based on type and position
-
-    #[repr(C)]
-    struct ForChildInfo {
-        cursor: CXCursor,
-        kind: i32,
-    }
-
-    #[repr(C)]
-    struct ForCollector {
-        children: Vec<ForChildInfo>,
-    }
-
-    // First pass: collect all children
-    extern "C" fn collect_for_children(
-        cursor: CXCursor,
-        _parent: CXCursor,
-        client_data: CXClientData,
-    ) -> CXChildVisitResult {
-        let collector = unsafe { &mut *(client_data as *mut ForCollector) };
-        let kind = unsafe { clang_getCursorKind(cursor) };
-        collector.children.push(ForChildInfo { cursor, kind });
-        CXChildVisit_Continue
-    }
-
-    let mut collector = ForCollector { children: Vec::new() };
-
-    unsafe {
-        clang_visitChildren(cursor, collect_for_children, &mut collector as *mut _ as CXClientData);
-    }
-
-    // Second pass: identify what each child is
+    // DECY-200: Clang leaves out the parts that are empty, so the index of a child does not say
+    // which part it is: the two semicolons do
     // DECY-224: Use Vec to support multiple init/increment declarations
     let mut init: Vec<Statement> = Vec::new();
     let mut condition: Option<Expression> = None;
     let mut increment: Vec<Statement> = Vec::new();
-    let mut body: Vec<Statement> = Vec::new();
-
-    let num_children = collector.children.len();
-
-    // Body is always the LAST child
-    // The children before body are init/condition/increment in that order,
-    // but clang omits empty ones
-
-    // Helper to check if a BinaryOperator is an assignment
-    fn is_assignment_op(cursor: CXCursor) -> bool {
-        if let Some(op) = extract_binary_operator(cursor) {
-            matches!(op, BinaryOperator::Assign)
-        } else {
-            false
-        }
-    }
 
-    // Helper to check if a BinaryOperator is a comparison/logical (condition)
-    fn is_condition_op(cursor: CXCursor) -> bool {
-        if let Some(op) = extract_binary_operator(cursor) {
-            matches!(
-                op,
-                BinaryOperator::Equal
-                    | BinaryOperator::NotEqual
-                    | BinaryOperator::LessThan
-                    | BinaryOperator::GreaterThan
-                    | BinaryOperator::LessEqual
-                    | BinaryOperator::GreaterEqual
-                    | BinaryOperator::LogicalAnd
-                    | BinaryOperator::LogicalOr
-            )
-        } else {
-            false
+    // The last child is always the body
+    let mut parts = child_cursors(cursor);
+    let body = parts.pop().map_or_else(Vec::new, extract_body);
+
+    let semicolons = for_semicolons(cursor);
+    let without_init = usize::from(parts.len() < 3);
+    for (index, part) in parts.into_iter().enumerate() {
+        let position = match semicolons[..] {
+            [first, second] => {
+                let start = offset_of(unsafe { clang_getRangeStart(clang_getCursorExtent(part)) });
+                usize::from(start > first) + usize::from(start > second)
+            }
+            // The semicolons are hidden in a macro: most often the condition comes first
+            _ => index + without_init,
+        };
+        match position {
+            0 => init.extend(extract_body(part)),
+            1 => condition = extract_expression_from_cursor(part),
+            _ => increment.extend(extract_body(part)),
         }
     }
 
-    // DECY-224: Helper to extract increment statements (handles comma operator)
-    fn extract_increment_stmts(cursor: CXCursor) -> Vec<Statement> {
-        let kind = unsafe { clang_getCursorKind(cursor) };
-        let mut stmts = Vec::new();
-
-        // Check for comma operator (BinaryOperator with comma)
-        if kind == CXCursor_BinaryOperator {
-            // Check if it's a comma operator by looking at the operator
-            if let Some(BinaryOperator::Comma) = extract_binary_operator(cursor) {
-                // Comma operator - recursively extract from both sides
-                let mut children: Vec<CXCursor> = Vec::new();
-                let children_ptr = &mut children as *mut Vec<CXCursor>;
-
-                extern "C" fn collect_children(
-                    cursor: CXCursor,
-                    _parent: CXCursor,
-                    client_data: CXClientData,
-                ) -> CXChildVisitResult {
-                    let children = unsafe { &mut *(client_data as *mut Vec<CXCursor>) };
-                    children.push(cursor);
-                    CXChildVisit_Continue
-                }
+    Some(Statement::For { init, condition, increment, body })
+}
 
-                unsafe {
-                    clang_visitChildren(cursor, collect_children, children_ptr as CXClientData);
-                }
+/// The offset of a location in the file it is in.
+fn offset_of(location: CXSourceLocation) -> u32 {
+    let mut offset = 0;
+    unsafe {
+        clang_getExpansionLocation(
+            location,
+            ptr::null_mut(),
+            ptr::null_mut(),
+            ptr::null_mut(),
+            &mut offset,
+        );
+    }
+    offset
+}
 
-                for child in children {
-                    stmts.extend(extract_increment_stmts(child));
-                }
-                return stmts;
-            }
-            // Assignment increment
-            if let Some(stmt) = extract_assignment_stmt(cursor) {
-                stmts.push(stmt);
-            }
-        } else if kind == CXCursor_UnaryOperator {
-            if let Some(stmt) = extract_inc_dec_stmt(cursor) {
-                stmts.push(stmt);
-            }
-        }
-        stmts
+/// The offsets of the two semicolons between the parentheses of a for loop.
+fn for_semicolons(cursor: CXCursor) -> Vec<u32> {
+    let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
+    let mut semicolons = Vec::new();
+    if tu.is_null() {
+        return semicolons;
     }
 
-    if num_children == 0 {
-        return Some(Statement::For { init, condition, increment, body });
+    let mut tokens = ptr::null_mut();
+    let mut num_tokens = 0;
+    unsafe {
+        clang_tokenize(tu, clang_getCursorExtent(cursor), &mut tokens, &mut num_tokens);
     }
 
-    // Process children based on count and types
-    // The LAST child is always the body
-    let body_idx = num_children - 1;
-    let body_child = &collector.children[body_idx];
-
-    // Extract body
-    body.extend(extract_body(body_child.cursor));
-
-    // Process children before body
-    let pre_body = &collector.children[..body_idx];
-
-    match pre_body.len() {
-        0 => {
-            // for (;;) - infinite loop with no init/condition/increment
-        }
-        1 => {
-            // One child before body - could be init, condition, or increment
-            // Use heuristics to determine which
-            let child = &pre_body[0];
-            if child.kind == CXCursor_DeclStmt {
-                // DeclStmt - always init
-                let mut init_stmts = Vec::new();
-                let ptr = &mut init_stmts as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(child.cursor, visit_statement, ptr as CXClientData);
-                }
-            } else if child.kind == CXCursor_BinaryOperator {
-                if is_assignment_op(child.cursor) {
-                    // Assignment - treat as init
-                    if let Some(stmt) = extract_assignment_stmt(child.cursor) {
-                        init.push(stmt);
-                    }
-                } else if is_condition_op(child.cursor) {
-                    // Comparison - treat as condition
-                    condition = extract_binary_op(child.cursor);
-                } else {
-                    // Ambiguous - default to condition
-                    condition = extract_binary_op(child.cursor);
-                }
-            } else if child.kind == CXCursor_UnaryOperator {
-                increment = extract_increment_stmts(child.cursor);
-            } else {
-                // Treat as condition by default
-                condition = extract_expression_from_cursor(child.cursor);
-            }
-        }
-        2 => {
-            // Two children before body
-            // Most common case: condition and increment (init is empty)
-            let child0 = &pre_body[0];
-            let child1 = &pre_body[1];
-
-            // Check if first child is init (DeclStmt or assignment)
-            let first_is_init = child0.kind == CXCursor_DeclStmt
-                || (child0.kind == CXCursor_BinaryOperator && is_assignment_op(child0.cursor));
-
-            if first_is_init {
-                // child0 = init, child1 = condition (skip increment)
-                if child0.kind == CXCursor_DeclStmt {
-                    // DECY-224: Collect ALL declarations
-                    let ptr = &mut init as *mut Vec<Statement>;
-                    unsafe {
-                        clang_visitChildren(child0.cursor, visit_statement, ptr as CXClientData);
-                    }
-                } else if let Some(stmt) = extract_assignment_stmt(child0.cursor) {
-                    init.push(stmt);
-                }
-                condition = extract_expression_from_cursor(child1.cursor);
-            } else {
-                // child0 = condition, child1 = increment (no init)
-                condition = extract_expression_from_cursor(child0.cursor);
-                increment = extract_increment_stmts(child1.cursor);
-            }
-        }
-        3 => {
-            // Three children before body - init, condition, increment all present
-            let child0 = &pre_body[0];
-            let child1 = &pre_body[1];
-            let child2 = &pre_body[2];
-
-            // Init - DECY-224: Collect ALL declarations
-            if child0.kind == CXCursor_DeclStmt {
-                let ptr = &mut init as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(child0.cursor, visit_statement, ptr as CXClientData);
-                }
-            } else if child0.kind == CXCursor_BinaryOperator {
-                if let Some(stmt) = extract_assignment_stmt(child0.cursor) {
-                    init.push(stmt);
+    let mut depth = 0;
+    for i in 0..num_tokens {
+        unsafe {
+            let token = *tokens.add(i as usize);
+            let token_cxstring = clang_getTokenSpelling(tu, token);
+            match CStr::from_ptr(clang_getCString(token_cxstring)).to_str() {
+                Ok("(") => depth += 1,
+                Ok(")") => depth -= 1,
+                Ok(";") if depth == 1 => {
+                    semicolons.push(offset_of(clang_getTokenLocation(tu, token)))
                 }
+                _ => {}
             }
-
-            // Condition
-            condition = extract_expression_from_cursor(child1.cursor);
-
-            // Increment - DECY-224: Handle comma operators
-            increment = extract_increment_stmts(child2.cursor);
+            clang_disposeString(token_cxstring);
         }
-        _ => {
-            // More than 3 children before body - unexpected, handle gracefully
+        if i > 0 && depth == 0 {
+            break;
         }
     }
 
-    Some(Statement::For { init, condition, increment, body })
+    unsafe {
+        clang_disposeTokens(tu, tokens, num_tokens);
+    }
+    semicolons
 }
 
 /// Extract a while loop statement.
-- 
2.43.0


From 436f1e8cd8f95fedfa6212edb6bb7466369219a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:37 +0000
Subject: [PATCH 32/49] fix: keep casts inside operands

---
 crates/decy-parser/src/extract/expressions.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index e3a725e..20164c0 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -678,6 +678,18 @@ pub(crate) extern "C" fn visit_binary_operand(
             }
             CXChildVisit_Continue
         }
+        117 => {
+            // CXCursor_CStyleCastExpr - cast as an operand (e.g., (char)x + 1)
+            match extract_cast(cursor) {
+                // (T *)malloc(n): the conversion between pointers is implicit in C
+                Some(Expression::Cast { target_type: Type::Pointer(_), .. }) => {
+                    return CXChildVisit_Recurse
+                }
+                Some(expr) => operands.push(expr),
+                None => {}
+            }
+            CXChildVisit_Continue
+        }
         _ => CXChildVisit_Recurse,
     }
 }
-- 
2.43.0


From 87141d51f416285f7a6ddc6dfc9d790f5bfea46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:52 +0000
Subject: [PATCH 33/49] fix: keep compound assignments used as a value

---
 crates/decy-parser/src/extract/expressions.rs | 48 ++++++++++++++++++-
 crates/decy-parser/src/extract/statements.rs  | 11 +++--
 2 files changed, 54 insertions(+), 5 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 20164c0..c2ac0c8 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -6,8 +6,8 @@ use std::ffi::CStr;
 use std::ptr;
 
 use super::statements::{
-    extract_assignment_stmt, extract_for_stmt, extract_if_stmt, extract_inc_dec_stmt,
-    extract_return_stmt, extract_var_decl, extract_while_stmt,
+    extract_assignment_stmt, extract_compound_operator, extract_for_stmt, extract_if_stmt,
+    extract_inc_dec_stmt, extract_return_stmt, extract_var_decl, extract_while_stmt,
 };
 use super::types::convert_type;
 
@@ -27,6 +27,7 @@ pub(crate) fn try_extract_expression(cursor: CXCursor) -> Option<Expression> {
         CXCursor_UnaryOperator => extract_unary_op(cursor),
         CXCursor_ArraySubscriptExpr => extract_array_index(cursor),
         CXCursor_MemberRefExpr => extract_field_access(cursor),
+        CXCursor_CompoundAssignOperator => extract_compound_assignment(cursor),
         116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator (ternary)
         117 => extract_cast(cursor),           // CXCursor_CStyleCastExpr
         118 => extract_compound_literal(cursor), // CXCursor_CompoundLiteralExpr
@@ -196,6 +197,13 @@ pub(crate) extern "C" fn visit_expression(
             }
             CXChildVisit_Continue
         }
+        CXCursor_CompoundAssignOperator => {
+            // Compound assignment used as a value (e.g., (n -= 2) > 0)
+            if let Some(expr) = extract_compound_assignment(cursor) {
+                *expr_opt = Some(expr);
+            }
+            CXChildVisit_Continue
+        }
         116 => {
             // CXCursor_ConditionalOperator (ternary)
             // DECY-192: Ternary expressions like (a > b) ? a : b
@@ -576,6 +584,28 @@ pub(crate) fn extract_binary_op(cursor: CXCursor) -> Option<Expression> {
     })
 }
 
+/// Extract a compound assignment used as a value: `a += b` is `a = a + b`.
+pub(crate) fn extract_compound_assignment(cursor: CXCursor) -> Option<Expression> {
+    let op = extract_compound_operator(cursor)?;
+
+    let mut operands: Vec<Expression> = Vec::new();
+    let operands_ptr = &mut operands as *mut Vec<Expression>;
+    unsafe {
+        clang_visitChildren(cursor, visit_binary_operand, operands_ptr as CXClientData);
+    }
+    let [target, value]: [Expression; 2] = operands.try_into().ok()?;
+
+    Some(Expression::BinaryOp {
+        op: BinaryOperator::Assign,
+        left: Box::new(target.clone()),
+        right: Box::new(Expression::BinaryOp {
+            op,
+            left: Box::new(target),
+            right: Box::new(value),
+        }),
+    })
+}
+
 /// Visitor callback for binary operator operands.
 pub(crate) extern "C" fn visit_binary_operand(
     cursor: CXCursor,
@@ -671,6 +701,13 @@ pub(crate) extern "C" fn visit_binary_operand(
             }
             CXChildVisit_Continue
         }
+        CXCursor_CompoundAssignOperator => {
+            // Compound assignment used as a value (e.g., (n -= 2) > 0)
+            if let Some(expr) = extract_compound_assignment(cursor) {
+                operands.push(expr);
+            }
+            CXChildVisit_Continue
+        }
         116 => {
             // CXCursor_ConditionalOperator (ternary) - DECY-192
             if let Some(expr) = extract_conditional_op(cursor) {
@@ -1170,6 +1207,13 @@ pub(crate) extern "C" fn visit_call_argument(
             }
             CXChildVisit_Continue
         }
+        CXCursor_CompoundAssignOperator => {
+            // Compound assignment used as a value (e.g., (n -= 2) > 0)
+            if let Some(expr) = extract_compound_assignment(cursor) {
+                arg_data.arguments.push(expr);
+            }
+            CXChildVisit_Continue
+        }
         116 => {
             // CXCursor_ConditionalOperator (ternary) - DECY-192
             if let Some(expr) = extract_conditional_op(cursor) {
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 610e367..b5db67c 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -398,8 +398,8 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
     }
 }
 
-/// Extract a compound assignment statement (+=, -=, *=, /=, %=, &=, |=, ^=, <<=, >>=).
-pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<Statement> {
+/// Extract the operator of a compound assignment (+=, -=, *=, /=, %=, &=, |=, ^=, <<=, >>=).
+pub(crate) fn extract_compound_operator(cursor: CXCursor) -> Option<BinaryOperator> {
     // Get the translation unit
     let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
     if tu.is_null() {
@@ -456,7 +456,12 @@ pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<State
         clang_disposeTokens(tu, tokens, num_tokens);
     }
 
-    let op = operator?;
+    operator
+}
+
+/// Extract a compound assignment statement (+=, -=, *=, /=, %=, &=, |=, ^=, <<=, >>=).
+pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<Statement> {
+    let op = extract_compound_operator(cursor)?;
 
     // Extract left side (target) and right side (value)
     let mut operands: Vec<Expression> = Vec::new();
-- 
2.43.0


From ea073044524a30ed669f3bffceae5cbc4fcc6160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:46 +0000
Subject: [PATCH 34/49] fix: repeat the body of a do-while loop

---
 crates/decy-parser/src/extract/mod.rs        | 13 +++++++++---
 crates/decy-parser/src/extract/statements.rs | 21 ++++++++++++++++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index e9a9dda..5475b9b 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -24,9 +24,9 @@ use std::ptr;
 
 use self::expressions::extract_statement;
 use self::statements::{
-    extract_assignment_stmt, extract_compound_assignment_stmt, extract_for_stmt, extract_if_stmt,
-    extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt, extract_var_decl,
-    extract_while_stmt,
+    extract_assignment_stmt, extract_compound_assignment_stmt, extract_do_stmt, extract_for_stmt,
+    extract_if_stmt, extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt,
+    extract_var_decl, extract_while_stmt,
 };
 
 #[allow(non_upper_case_globals)]
@@ -325,6 +325,13 @@ pub(crate) extern "C" fn visit_statement(
             }
             CXChildVisit_Continue
         }
+        CXCursor_DoStmt => {
+            // Do-while loop
+            if let Some(stmt) = extract_do_stmt(cursor) {
+                statements.push(stmt);
+            }
+            CXChildVisit_Continue
+        }
         CXCursor_SwitchStmt => {
             // Switch statement
             if let Some(stmt) = extract_switch_stmt(cursor) {
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index b5db67c..2497f42 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -723,6 +723,27 @@ pub(crate) fn extract_while_stmt(cursor: CXCursor) -> Option<Statement> {
     Some(Statement::While { condition: while_data.condition?, body: while_data.body })
 }
 
+/// Extract a do-while loop: a loop without a condition that ends after the body, where a
+/// `continue` also leads, once the condition is false.
+pub(crate) fn extract_do_stmt(cursor: CXCursor) -> Option<Statement> {
+    let [body, condition]: [CXCursor; 2] = child_cursors(cursor).try_into().ok()?;
+    let end = Statement::If {
+        condition: Expression::UnaryOp {
+            op: UnaryOperator::LogicalNot,
+            operand: Box::new(extract_expression_from_cursor(condition)?),
+        },
+        then_block: vec![Statement::Break],
+        else_block: None,
+    };
+
+    Some(Statement::For {
+        init: Vec::new(),
+        condition: None,
+        increment: vec![end],
+        body: extract_body(body),
+    })
+}
+
 /// Visitor for while loop children.
 pub(crate) extern "C" fn visit_while_children(
     cursor: CXCursor,
-- 
2.43.0


From 0710ebb0e8045ad64748ab6c0566f1d7c6c547a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:46 +0000
Subject: [PATCH 35/49] fix: never take the size of an array for its
 initializer

---
 crates/decy-parser/src/extract/statements.rs | 23 +++++++++++---------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 2497f42..2b1c26b 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -80,16 +80,19 @@ pub(crate) fn extract_var_decl(cursor: CXCursor) -> Option<Statement> {
     // capture the array size as an initializer. For example, `int nums[5];` has
     // the integer literal 5 as a child node (the array size), which gets captured.
     //
-    // Fix: If the variable is an array type and the initializer is an integer literal
-    // that matches the array size, clear the initializer (it's the size, not an init).
-    let initializer = match (&var_type, &initializer) {
-        (Type::Array { size: Some(array_size), .. }, Some(Expression::IntLiteral(init_val)))
-            if i64::from(*init_val) == *array_size =>
-        {
-            // The "initializer" is actually the array size expression, not a real initializer
-            None
-        }
-        _ => initializer,
+    // Fix: An array of known size is initialized by a list, a string or a constructor call;
+    // any other expression is its size, such as the sum in `int nums[2 + 3];`.
+    let initializer = match (&var_type, initializer) {
+        (
+            Type::Array { size: Some(_), .. },
+            Some(
+                init @ (Expression::CompoundLiteral { .. }
+                | Expression::StringLiteral(_)
+                | Expression::FunctionCall { .. }),
+            ),
+        ) => Some(init),
+        (Type::Array { size: Some(_), .. }, _) => None,
+        (_, initializer) => initializer,
     };
 
     Some(Statement::VariableDeclaration { name, var_type, initializer })
-- 
2.43.0


From b9612c12fab40d497a063a424e6f7fe3b6f91a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:57 +0000
Subject: [PATCH 36/49] fix: apply ++ and -- to what they stand next to

---
 crates/decy-parser/src/extract/expressions.rs | 95 +++++--------------
 crates/decy-parser/src/extract/statements.rs  | 28 +++++-
 2 files changed, 49 insertions(+), 74 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index c2ac0c8..45aa323 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -1273,95 +1273,45 @@ pub(crate) fn extract_unary_op(cursor: CXCursor) -> Option<Expression> {
     let mut is_dereference = false;
     let mut is_increment = false;
     let mut is_decrement = false;
-    let mut operator_position = 0;
-
-    // DECY-255: For expressions like (*p)++, we need to find ++ as the operator
-    // The key insight is: ++ or -- at position > 0 is post-increment/decrement
-    // while * at position 0 is dereference
-    // So we scan all tokens and pick the right operator based on position
-    let mut found_star_at_zero = false;
-    let mut found_open_paren_at_zero = false;
-    let mut found_increment: Option<u32> = None;
-    let mut found_decrement: Option<u32> = None;
+    let mut is_plus = false;
+    let mut is_pre = false;
 
+    // DECY-255: The operator is the first token (*p++ is a dereference, ++p and -p++ are what
+    // they start with) or, where that belongs to the operand, the last ++ or -- as in (*p)++
     for i in 0..num_tokens {
         unsafe {
             let token = *tokens.add(i as usize);
             let token_kind = clang_getTokenKind(token);
+            let mut is_first = false;
 
             if token_kind == CXToken_Punctuation {
                 let token_cxstring = clang_getTokenSpelling(tu, token);
                 let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
                 if let Ok(token_str) = c_str.to_str() {
+                    is_first = i == 0 && token_str != "(";
                     match token_str {
-                        "*" if i == 0 => found_star_at_zero = true,
-                        "(" if i == 0 => found_open_paren_at_zero = true,
-                        "++" => {
-                            found_increment = Some(i);
-                        }
-                        "--" => {
-                            found_decrement = Some(i);
-                        }
-                        "-" if i == 0 && operator.is_none() => {
-                            operator = Some(UnaryOperator::Minus);
-                        }
-                        "!" if i == 0 && operator.is_none() => {
-                            operator = Some(UnaryOperator::LogicalNot);
-                        }
-                        "~" if i == 0 && operator.is_none() => {
-                            operator = Some(UnaryOperator::BitwiseNot);
-                        }
-                        "&" if i == 0 && operator.is_none() => {
-                            operator = Some(UnaryOperator::AddressOf);
+                        "++" | "--" => {
+                            is_increment = token_str == "++";
+                            is_decrement = !is_increment;
+                            is_pre = i == 0;
                         }
+                        "*" if i == 0 => is_dereference = true,
+                        "+" if i == 0 => is_plus = true,
+                        "-" if i == 0 => operator = Some(UnaryOperator::Minus),
+                        "!" if i == 0 => operator = Some(UnaryOperator::LogicalNot),
+                        "~" if i == 0 => operator = Some(UnaryOperator::BitwiseNot),
+                        "&" if i == 0 => operator = Some(UnaryOperator::AddressOf),
                         _ => {}
                     }
                 }
                 clang_disposeString(token_cxstring);
             }
+            if is_first {
+                break;
+            }
         }
     }
 
-    // DECY-255: For (*p)++, we have ( at position 0, * at position 1, and ++ at the end
-    // The ++ is the operator for THIS cursor, * is part of the operand
-    // For *p++ (without parens), the * is the operator and ++ is handled by a nested cursor
-    // CRITICAL: If we have * at position 0 (dereference), the ++ belongs to a nested expression
-    // CRITICAL: If we found a unary operator (-, !, ~, &) at position 0, do NOT override
-    // with ++/-- found at later positions - those belong to different expressions
-    let has_unary_op_at_zero = operator.is_some();
-
-    if let Some(pos) = found_increment {
-        // Only use ++ as operator if:
-        // 1. It's at position 0 (pre-increment), OR
-        // 2. We have ( at position 0 (parenthesized expression like (*p)++), OR
-        // 3. No other unary operator at position 0 and no * at position 0
-        if pos == 0 {
-            is_increment = true;
-            operator_position = pos;
-        } else if found_open_paren_at_zero {
-            // (*p)++ case - the ++ applies to the whole parenthesized expression
-            is_increment = true;
-            operator_position = pos;
-        } else if !has_unary_op_at_zero && !found_star_at_zero {
-            // No dereference and no other unary op at position 0
-            is_increment = true;
-            operator_position = pos;
-        }
-    }
-    if let Some(pos) = found_decrement {
-        // Decrement takes precedence if at position 0, after open paren, or no other unary op
-        if pos == 0 || found_open_paren_at_zero || (!has_unary_op_at_zero && !found_star_at_zero) {
-            is_decrement = true;
-            operator_position = pos;
-        }
-    }
-
-    // If no increment/decrement selected, use dereference if found at position 0
-    if !is_increment && !is_decrement && found_star_at_zero {
-        is_dereference = true;
-    }
-    // operator is already set if we found -, !, ~, or & at position 0
-
     unsafe {
         clang_disposeTokens(tu, tokens, num_tokens);
     }
@@ -1384,7 +1334,6 @@ pub(crate) fn extract_unary_op(cursor: CXCursor) -> Option<Expression> {
     // Handle increment/decrement operators
     if is_increment {
         // Check if pre or post increment
-        let is_pre = operator_position == 0;
         if is_pre {
             return Some(Expression::PreIncrement { operand: Box::new(operand_expr) });
         } else {
@@ -1394,7 +1343,6 @@ pub(crate) fn extract_unary_op(cursor: CXCursor) -> Option<Expression> {
 
     if is_decrement {
         // Check if pre or post decrement
-        let is_pre = operator_position == 0;
         if is_pre {
             return Some(Expression::PreDecrement { operand: Box::new(operand_expr) });
         } else {
@@ -1402,6 +1350,11 @@ pub(crate) fn extract_unary_op(cursor: CXCursor) -> Option<Expression> {
         }
     }
 
+    // +x is x
+    if is_plus {
+        return Some(operand_expr);
+    }
+
     // Handle other unary operators
     if let Some(op) = operator {
         // -2147483648: the digits alone already have the bits of the smallest int
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 2b1c26b..b2217c7 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -200,8 +200,10 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
 
     let mut operator: Option<String> = None;
     let mut operator_position = 0;
+    let mut is_dereference = false;
 
-    // Look through tokens to find ++ or --
+    // Look through tokens to find ++ or --: the first token, or else the last one of them, as
+    // those before it belong to the operand
     for i in 0..num_tokens {
         unsafe {
             let token = *tokens.add(i as usize);
@@ -214,9 +216,12 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
                     if token_str == "++" || token_str == "--" {
                         operator = Some(token_str.to_string()); // Clone the string before disposing
                         operator_position = i;
-                        clang_disposeString(token_cxstring);
-                        break;
+                        if i == 0 {
+                            clang_disposeString(token_cxstring);
+                            break;
+                        }
                     }
+                    is_dereference |= i == 0 && token_str == "*";
                 }
                 clang_disposeString(token_cxstring);
             }
@@ -232,6 +237,23 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
         clang_disposeTokens(tu, tokens, num_tokens);
     }
 
+    // (*p)++ changes what p points to, where *p++ changes p
+    if !is_dereference {
+        let mut operand: Option<Expression> = None;
+        let operand_ptr = &mut operand as *mut Option<Expression>;
+        unsafe {
+            clang_visitChildren(cursor, visit_expression, operand_ptr as CXClientData);
+        }
+        if let Some(Expression::Dereference(target)) = operand {
+            let op = match operator?.as_str() {
+                "++" => BinaryOperator::Add,
+                _ => BinaryOperator::Subtract,
+            };
+            let value = Expression::IntLiteral(1);
+            return Some(Statement::DerefCompoundAssignment { target: *target, op, value });
+        }
+    }
+
     // DECY-166: First check if this is a member expression increment (e.g., sb->length++)
     // We need to detect this case and create a FieldAssignment instead of PostIncrement
     let mut member_expr: Option<Expression> = None;
-- 
2.43.0


From cef73497a2168d3423a83e68e2c71b0db09b6c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:28 +0000
Subject: [PATCH 37/49] fix: write the escapes of C strings as Rust has them

---
 crates/decy-codegen/src/expr_gen/literals.rs | 53 +++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/literals.rs b/crates/decy-codegen/src/expr_gen/literals.rs
index b3c418d..60c8953 100644
--- a/crates/decy-codegen/src/expr_gen/literals.rs
+++ b/crates/decy-codegen/src/expr_gen/literals.rs
@@ -112,7 +112,58 @@ impl CodeGenerator {
                 return format!("b\"{}\\0\".as_ptr() as *mut u8", escaped);
             }
         }
-        format!("\"{}\"", s)
+        format!("\"{}\"", Self::rust_escapes(s))
+    }
+
+    /// The text of a C string literal with the escapes Rust lacks (or reads differently, as
+    /// octal ones) written as `\xNN`.
+    fn rust_escapes(s: &str) -> String {
+        let mut out = String::with_capacity(s.len());
+        let mut chars = s.chars().peekable();
+        while let Some(c) = chars.next() {
+            if c != '\\' {
+                out.push(c);
+                continue;
+            }
+            match chars.next() {
+                Some('a') => out.push_str("\\x07"),
+                Some('b') => out.push_str("\\x08"),
+                Some('v') => out.push_str("\\x0b"),
+                Some('f') => out.push_str("\\x0c"),
+                Some('?') => out.push('?'),
+                Some(d @ '0'..='7') => {
+                    let mut code = d as u32 - '0' as u32;
+                    for _ in 0..2 {
+                        match chars.peek().and_then(|d| d.to_digit(8)) {
+                            Some(d) => {
+                                code = code * 8 + d;
+                                chars.next();
+                            }
+                            None => break,
+                        }
+                    }
+                    if code == 0 {
+                        out.push_str("\\0");
+                    } else {
+                        out.push_str(&format!("\\x{:02x}", code));
+                    }
+                }
+                Some('x') => {
+                    let mut code = 0;
+                    while let Some(d) = chars.peek().and_then(|d| d.to_digit(16)) {
+                        code = (code * 16 + d) & 0xff;
+                        chars.next();
+                    }
+                    out.push_str(&format!("\\x{:02x}", code));
+                }
+                Some(other) => {
+                    out.push('\\');
+                    out.push(other);
+                }
+                None => out.push('\\'),
+            }
+        }
+        out
     }
 
     pub(crate) fn gen_expr_char_literal(c: i8) -> String {
-- 
2.43.0


From 81c1cdf9101c5fe40c3c79fc1fde8484be1f217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:28 +0000
Subject: [PATCH 38/49] fix: escape braces and keep the flags of printf
 formats, print characters for %c

---
 crates/decy-codegen/src/expr_gen/calls.rs | 12 ++++-
 crates/decy-codegen/src/expr_gen/misc.rs  | 53 +++++++++++++++++++----
 2 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 450d830..e3f26d8 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -478,12 +478,22 @@ impl CodeGenerator {
                 format!("print!({})", rust_fmt)
             } else {
                 let s_positions = Self::find_string_format_positions(&fmt);
+                let c_positions = Self::find_format_positions(&fmt, 'c');
                 let args: Vec<String> = arguments[1..]
                     .iter()
                     .enumerate()
                     .map(|(i, a)| {
                         let arg_code = self.generate_expression_with_context(a, ctx);
-                        if s_positions.contains(&i) && !Self::is_string_ternary(a) {
+                        if c_positions.contains(&i) {
+                            // %c prints the character with the code, not the number
+                            format!("({}) as u8 as char", arg_code)
+                        } else if Self::is_boolean_expression(a) {
+                            // a truth value is 0 or 1 in C
+                            format!("({}) as i32", arg_code)
+                        } else if matches!(a, HirExpression::StringLiteral(_)) {
+                            // already a &str, and not terminated by NUL
+                            arg_code
+                        } else if s_positions.contains(&i) && !Self::is_string_ternary(a) {
                             let arg_type = ctx.infer_expression_type(a);
                             let is_raw_pointer = matches!(arg_type, Some(HirType::Pointer(_)));
                             let is_function_call = matches!(a, HirExpression::FunctionCall { .. });
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 04bf3b8..5d06f2e 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -742,15 +742,19 @@ impl CodeGenerator {
                 i += 1; // skip %
 
                 let mut flags = String::new();
+                let mut left = false;
+                let mut plus = false;
                 let mut width = String::new();
                 let mut precision = String::new();
 
                 // Parse flags: -, +, space, #, 0
                 while i < chars.len() && "-+ #0".contains(chars[i]) {
-                    if chars[i] == '0' {
-                        flags.push('0'); // zero-padding
+                    match chars[i] {
+                        '0' => flags = "0".to_string(), // zero-padding
+                        '-' => left = true,             // left-align
+                        '+' => plus = true,             // always a sign
+                        _ => {}                         // no counterpart in Rust
                     }
-                    // Skip other flags for now (- is left-align, + is sign, etc.)
                     i += 1;
                 }
 
@@ -779,6 +783,17 @@ impl CodeGenerator {
                     let spec = chars[i];
                     i += 1;
 
+                    // Rust writes [[fill]align][sign]['0']; left-alignment turns zero-padding off,
+                    // and only signed conversions have a sign
+                    if left && !width.is_empty() {
+                        flags = "<".to_string();
+                    } else if width.is_empty() {
+                        flags.clear();
+                    }
+                    if plus && flags != "0" && "difF".contains(spec) {
+                        flags.push('+');
+                    }
+
                     // Build Rust format specifier
                     let rust_spec = match spec {
                         'd' | 'i' | 'u' => {
@@ -822,9 +837,9 @@ impl CodeGenerator {
                                 if !width.is_empty() {
                                     format!("{{:{}{}.{}}}", flags, width, precision)
                                 } else {
-                                    format!("{{:.{}}}", precision)
+                                    format!("{{:{}.{}}}", flags, precision)
                                 }
-                            } else if !width.is_empty() {
+                            } else if !width.is_empty() || !flags.is_empty() {
                                 format!("{{:{}{}}}", flags, width)
                             } else {
                                 "{}".to_string()
@@ -834,13 +849,23 @@ impl CodeGenerator {
                         'E' => "{:E}".to_string(),
                         'g' | 'G' => "{}".to_string(),
                         's' => {
+                            let align = if left && !width.is_empty() { "<" } else { "" };
+                            if !precision.is_empty() {
+                                format!("{{:{}{}.{}}}", align, width, precision)
+                            } else if !width.is_empty() {
+                                format!("{{:{}{}}}", align, width)
+                            } else {
+                                "{}".to_string()
+                            }
+                        }
+                        'c' => {
                             if !width.is_empty() {
-                                format!("{{:{}}}", width)
+                                // Rust aligns characters to the left by default, C to the right
+                                format!("{{:{}{}}}", if left { "<" } else { ">" }, width)
                             } else {
                                 "{}".to_string()
                             }
                         }
-                        'c' => "{}".to_string(),
                         'p' => "{:p}".to_string(),
                         _ => {
                             // Unknown specifier, keep original
@@ -853,6 +878,10 @@ impl CodeGenerator {
                     result.push_str(&input[start..]);
                 }
             } else {
+                // Braces stand for themselves in C and are doubled in Rust
+                if chars[i] == '{' || chars[i] == '}' {
+                    result.push(chars[i]);
+                }
                 result.push(chars[i]);
                 i += 1;
             }
@@ -864,6 +893,12 @@ impl CodeGenerator {
     /// DECY-187: Find positions of %s format specifiers in a format string.
     /// Returns 0-indexed positions corresponding to printf arguments.
     pub(crate) fn find_string_format_positions(fmt: &str) -> Vec<usize> {
+        Self::find_format_positions(fmt, 's')
+    }
+
+    /// Find positions of the arguments a given conversion of a format string takes.
+    /// Returns 0-indexed positions corresponding to printf arguments.
+    pub(crate) fn find_format_positions(fmt: &str, conversion: char) -> Vec<usize> {
         let mut positions = Vec::new();
         let mut arg_index = 0;
         let trimmed = fmt.trim();
@@ -913,14 +948,16 @@ impl CodeGenerator {
                 // Now we should be at the conversion specifier
                 if j < chars.len() {
                     let specifier = chars[j];
-                    if specifier == 's' {
+                    if specifier == conversion {
                         positions.push(arg_index);
                     }
                     // Count this as an argument position (for d, i, u, f, s, c, p, x, X, o, e, E, g, G, n)
                     if specifier == 'd'
                         || specifier == 'i'
                         || specifier == 'u'
+                        || specifier == 'b'
                         || specifier == 'f'
+                        || specifier == 'F'
                         || specifier == 's'
                         || specifier == 'c'
                         || specifier == 'p'
-- 
2.43.0


From aff3bfed244734037febd4c014adcfdd8206d19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:43 +0000
Subject: [PATCH 39/49] fix: read all of a string literal

---
 crates/decy-parser/src/extract/expressions.rs | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 45aa323..9cf61ec 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -431,15 +431,21 @@ pub(crate) fn extract_string_literal(cursor: CXCursor) -> Option<Expression> {
     let mut value = String::new();
 
     if num_tokens > 0 {
-        // SAFETY: Get the spelling of the first token
         unsafe {
-            let token_cxstring = clang_getTokenSpelling(tu, *tokens);
-            let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
-            if let Ok(token_str) = c_str.to_str() {
-                // Remove surrounding quotes from string literal
-                value = token_str.trim_matches('"').to_string();
+            for i in 0..num_tokens as usize {
+                // SAFETY: i is below the number of tokens
+                let token_cxstring = clang_getTokenSpelling(tu, *tokens.add(i));
+                let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
+                if let Ok(token_str) = c_str.to_str() {
+                    // Remove the surrounding quotes; adjacent literals are one string
+                    match token_str.strip_prefix('"').and_then(|s| s.strip_suffix('"')) {
+                        Some(inner) => value.push_str(inner),
+                        None if i == 0 => value = token_str.trim_matches('"').to_string(),
+                        None => {}
+                    }
+                }
+                clang_disposeString(token_cxstring);
             }
-            clang_disposeString(token_cxstring);
 
             // SAFETY: Dispose tokens
             clang_disposeTokens(tu, tokens, num_tokens);
-- 
2.43.0


From a3f448176df7337367df230659db404bf649c365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:40 +0000
Subject: [PATCH 40/49] fix: borrow an array mutably for a callee that writes
 to it

---
 crates/decy-codegen/src/expr_gen/calls.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index e3f26d8..9fe3f04 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -670,7 +670,18 @@ impl CodeGenerator {
 
                 if array_indices.contains(&i) {
                     let arg_code = self.generate_expression_with_context(arg, ctx);
-                    return Some(format!("&{}", arg_code));
+                    // The callee's signature no longer has the length parameters
+                    let param_idx = i - len_indices_to_skip.iter().filter(|&&l| l < i).count();
+                    let expects_mut = matches!(
+                        ctx.get_function_param_type(function, param_idx),
+                        Some(HirType::Reference { mutable: true, .. })
+                    );
+                    if !expects_mut {
+                        return Some(format!("&{}", arg_code));
+                    }
+                    let is_reference = matches!(arg, HirExpression::Variable(name)
+                        if matches!(ctx.get_type(name), Some(HirType::Reference { .. })));
+                    return Some(if is_reference { arg_code } else { format!("&mut {}", arg_code) });
                 }
 
                 let is_address_of = matches!(arg, HirExpression::AddressOf(_))
-- 
2.43.0


From f1328067020957ee3ec508c1292e5aa76a4f013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:40 +0000
Subject: [PATCH 41/49] fix: assign to the local that hides a global, under the
 name it was declared

---
 crates/decy-codegen/src/lib.rs      | 3 ++-
 crates/decy-codegen/src/stmt_gen.rs | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/lib.rs b/crates/decy-codegen/src/lib.rs
index 13b2084..06eb4ae 100644
--- a/crates/decy-codegen/src/lib.rs
+++ b/crates/decy-codegen/src/lib.rs
@@ -97,8 +97,9 @@ impl TypeContext {
     }
 
     /// DECY-220: Check if a variable is a global (static mut) requiring unsafe
+    /// A local that hides a global is not one (DECY-245)
     fn is_global(&self, name: &str) -> bool {
-        self.globals.contains(name)
+        self.globals.contains(name) && !self.renamed_locals.contains_key(name)
     }
 
     /// DECY-134b: Register a function's string iteration params for call site transformation
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 0af34e1..cb38006 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -293,7 +293,7 @@ impl CodeGenerator {
         ctx: &mut TypeContext,
     ) -> String {
         let escaped_name = escape_rust_keyword(name);
-        let escaped_name = if ctx.is_global(&escaped_name) {
+        let escaped_name = if ctx.globals.contains(&escaped_name) {
             let renamed = format!("{}_local", escaped_name);
             ctx.add_renamed_local(escaped_name.clone(), renamed.clone());
             renamed
@@ -623,6 +623,13 @@ impl CodeGenerator {
                 let clean_value = strip_nested_unsafe(&value_code);
                 format!("unsafe {{ {} = {}; }}", target, clean_value)
             } else {
+                // A declared variable goes by the name its declaration was given
+                let escaped = escape_rust_keyword(target);
+                let target = match ctx.get_renamed_local(&escaped) {
+                    Some(renamed) => renamed,
+                    None if ctx.get_type(target).is_some() => &escaped,
+                    None => target,
+                };
                 format!("{} = {};", target, value_code)
             }
         }
-- 
2.43.0


From 15f40b4bb1b3b6f006e71b4f2468adecd71bd2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:40 +0000
Subject: [PATCH 42/49] fix: escape Rust keywords in function and parameter
 names

---
 crates/decy-codegen/src/expr_gen/calls.rs |  5 ++--
 crates/decy-codegen/src/func_gen.rs       | 33 ++++++++++++-----------
 crates/decy-codegen/src/transform_gen.rs  | 23 +++++++++-------
 3 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 9fe3f04..d901581 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -1,6 +1,6 @@
 //! Function call, dereference, and unary expression generation.
 
-use super::{CodeGenerator, TypeContext};
+use super::{escape_rust_keyword, CodeGenerator, TypeContext};
 use decy_hir::{BinaryOperator, HirExpression, HirType};
 
 impl CodeGenerator {
@@ -820,6 +820,7 @@ impl CodeGenerator {
                 }
             })
             .collect();
+        let escaped_function = escape_rust_keyword(function);
         let safe_function = match function {
             "write" => "c_write",
             "read" => "c_read",
@@ -827,7 +828,7 @@ impl CodeGenerator {
             "match" => "c_match",
             "self" => "c_self",
             "in" => "c_in",
-            _ => function,
+            _ => &escaped_function,
         };
         format!("{}({})", safe_function, args.join(", "))
     }
diff --git a/crates/decy-codegen/src/func_gen.rs b/crates/decy-codegen/src/func_gen.rs
index 7a51bfc..c0b673a 100644
--- a/crates/decy-codegen/src/func_gen.rs
+++ b/crates/decy-codegen/src/func_gen.rs
@@ -4,7 +4,7 @@
 //! declarations: function signatures, function bodies with ownership analysis,
 //! struct/enum definitions, typedefs, constants, and global variables.
 
-use super::CodeGenerator;
+use super::{escape_rust_keyword, CodeGenerator};
 use decy_hir::{BinaryOperator, HirExpression, HirFunction, HirStatement, HirType};
 use decy_ownership::lifetime_gen::{AnnotatedSignature, AnnotatedType};
 
@@ -30,6 +30,7 @@ impl CodeGenerator {
         let annotated_sig = lifetime_annotator.annotate_function(func);
 
         // DECY-241: Rename functions that conflict with Rust macros/keywords
+        let escaped_name = escape_rust_keyword(func.name());
         let safe_name = match func.name() {
             "write" => "c_write", // Conflicts with Rust's write! macro
             "read" => "c_read",   // Conflicts with Rust's read
@@ -37,7 +38,7 @@ impl CodeGenerator {
             "match" => "c_match", // Rust keyword
             "self" => "c_self",   // Rust keyword
             "in" => "c_in",       // Rust keyword
-            name => name,
+            _ => &escaped_name,
         };
         let mut sig = format!("fn {}", safe_name);
 
@@ -178,6 +179,7 @@ impl CodeGenerator {
         graph: &decy_ownership::dataflow::DataflowGraph,
         void_patterns: &[decy_analyzer::void_ptr_analysis::VoidPtrInfo],
     ) -> Option<String> {
+        let safe_name = escape_rust_keyword(&p.name);
         // Check if this is an array parameter
         let is_array = graph.is_array_parameter(&p.name).unwrap_or(false);
 
@@ -192,7 +194,7 @@ impl CodeGenerator {
                 let is_mutable = self.is_parameter_modified(func, &p.name);
                 let slice_type = self.pointer_to_slice_type(orig_param.param_type(), is_mutable);
                 // For slices, don't add 'mut' prefix (slices themselves aren't reassigned)
-                Some(format!("{}: {}", p.name, slice_type))
+                Some(format!("{}: {}", safe_name, slice_type))
             } else {
                 None
             }
@@ -205,9 +207,9 @@ impl CodeGenerator {
                     let is_mutable = self.is_parameter_modified(func, &p.name);
                     let element_str = Self::map_type(element_type);
                     if is_mutable {
-                        return Some(format!("{}: &mut [{}]", p.name, element_str));
+                        return Some(format!("{}: &mut [{}]", safe_name, element_str));
                     } else {
-                        return Some(format!("{}: &[{}]", p.name, element_str));
+                        return Some(format!("{}: &[{}]", safe_name, element_str));
                     }
                 }
             }
@@ -218,7 +220,7 @@ impl CodeGenerator {
                 // DECY-138: Add mut for string iteration patterns (param reassignment)
                 // Must check BEFORE other pointer transformations
                 if orig_param.is_const_char_pointer() {
-                    return Some(format!("mut {}: &str", p.name));
+                    return Some(format!("mut {}: &str", safe_name));
                 }
 
                 if let HirType::Pointer(inner) = orig_param.param_type() {
@@ -228,7 +230,7 @@ impl CodeGenerator {
             // Regular parameter with lifetime annotation
             let type_str = self.annotated_type_to_string(&p.param_type);
             // In C, parameters are mutable by default (can be reassigned)
-            Some(format!("mut {}: {}", p.name, type_str))
+            Some(format!("mut {}: {}", safe_name, type_str))
         }
     }
 
@@ -241,6 +243,7 @@ impl CodeGenerator {
         void_patterns: &[decy_analyzer::void_ptr_analysis::VoidPtrInfo],
     ) -> String {
         use decy_analyzer::void_ptr_analysis::TypeConstraint;
+        let safe_name = escape_rust_keyword(name);
 
         // DECY-096: void* param becomes generic &T or &mut T
         // DECY-168: Only apply generic transformation if we found an actual pattern
@@ -258,14 +261,14 @@ impl CodeGenerator {
                 // Found actual usage pattern - apply generic transformation
                 let is_mutable = pattern.constraints.contains(&TypeConstraint::Mutable);
                 if is_mutable {
-                    return format!("{}: &mut T", name);
+                    return format!("{}: &mut T", safe_name);
                 } else {
-                    return format!("{}: &T", name);
+                    return format!("{}: &T", safe_name);
                 }
             } else {
                 // DECY-168: No pattern with real constraints found - keep as raw pointer
                 // This is important for stdlib stubs (realloc, memcpy, etc.)
-                return format!("{}: *mut ()", name);
+                return format!("{}: *mut ()", safe_name);
             }
         }
         // DECY-134: Check for string iteration pattern FIRST
@@ -274,9 +277,9 @@ impl CodeGenerator {
             // Transform to slice for safe string iteration
             let is_mutable = self.is_parameter_deref_modified(func, name);
             if is_mutable {
-                return format!("{}: &mut [u8]", name);
+                return format!("{}: &mut [u8]", safe_name);
             } else {
-                return format!("{}: &[u8]", name);
+                return format!("{}: &[u8]", safe_name);
             }
         }
         // DECY-123: Don't transform to reference if pointer arithmetic is used
@@ -285,17 +288,17 @@ impl CodeGenerator {
             // Keep as raw pointer - will need unsafe blocks
             // DECY-124: Add mut since the pointer is reassigned
             let inner_type = Self::map_type(inner);
-            return format!("mut {}: *mut {}", name, inner_type);
+            return format!("mut {}: *mut {}", safe_name, inner_type);
         }
         // Transform pointer param to mutable reference
         // Check if the param is modified in the function body
         let is_mutable = self.is_parameter_deref_modified(func, name);
         let inner_type = Self::map_type(inner);
         if is_mutable {
-            format!("{}: &mut {}", name, inner_type)
+            format!("{}: &mut {}", safe_name, inner_type)
         } else {
             // Read-only pointer becomes immutable reference
-            format!("{}: &{}", name, inner_type)
+            format!("{}: &{}", safe_name, inner_type)
         }
     }
 
diff --git a/crates/decy-codegen/src/transform_gen.rs b/crates/decy-codegen/src/transform_gen.rs
index 2d976d0..4effeaa 100644
--- a/crates/decy-codegen/src/transform_gen.rs
+++ b/crates/decy-codegen/src/transform_gen.rs
@@ -58,6 +58,7 @@ impl CodeGenerator {
         func: Option<&HirFunction>,
     ) -> String {
         // DECY-241: Rename functions that conflict with Rust macros/keywords
+        let escaped_name = escape_rust_keyword(&sig.name);
         let safe_name = match sig.name.as_str() {
             "write" => "c_write",
             "read" => "c_read",
@@ -65,7 +66,7 @@ impl CodeGenerator {
             "match" => "c_match",
             "self" => "c_self",
             "in" => "c_in",
-            name => name,
+            _ => &escaped_name,
         };
         let mut result = format!("fn {}", safe_name);
 
@@ -193,6 +194,7 @@ impl CodeGenerator {
         p: &decy_ownership::lifetime_gen::AnnotatedParameter,
         func: Option<&HirFunction>,
     ) -> String {
+        let safe_name = escape_rust_keyword(&p.name);
         // Check if this is a slice parameter (Reference to Array with size=None)
         let is_slice = match &p.param_type {
             AnnotatedType::Reference { inner, .. } => match &**inner {
@@ -218,7 +220,7 @@ impl CodeGenerator {
                 }
                 _ => self.annotated_type_to_string(&p.param_type),
             };
-            return format!("{}: {}", p.name, type_str);
+            return format!("{}: {}", safe_name, type_str);
         }
 
         // DECY-111: Transform pointer parameters to mutable references
@@ -230,11 +232,11 @@ impl CodeGenerator {
         // DECY-196: Handle unsized array parameters → slice references
         if let AnnotatedType::Simple(HirType::Array { element_type, size: None }) = &p.param_type {
             let element_str = Self::map_type(element_type);
-            return format!("{}: &mut [{}]", p.name, element_str);
+            return format!("{}: &mut [{}]", safe_name, element_str);
         }
 
         // DECY-041: Add mut for all non-slice parameters to match C semantics
-        format!("mut {}: {}", p.name, self.annotated_type_to_string(&p.param_type))
+        format!("mut {}: {}", safe_name, self.annotated_type_to_string(&p.param_type))
     }
 
     /// Generate an annotated pointer parameter (reference, raw pointer, slice, or &str).
@@ -244,11 +246,12 @@ impl CodeGenerator {
         inner: &HirType,
         func: Option<&HirFunction>,
     ) -> String {
+        let safe_name = escape_rust_keyword(name);
         // DECY-135: const char* → &str transformation
         if let Some(f) = func {
             if let Some(orig_param) = f.parameters().iter().find(|fp| fp.name() == name) {
                 if orig_param.is_const_char_pointer() {
-                    return format!("mut {}: &str", name);
+                    return format!("mut {}: &str", safe_name);
                 }
             }
         }
@@ -257,9 +260,9 @@ impl CodeGenerator {
             if self.is_string_iteration_param(f, name) {
                 let is_mutable = self.is_parameter_deref_modified(f, name);
                 if is_mutable {
-                    return format!("{}: &mut [u8]", name);
+                    return format!("{}: &mut [u8]", safe_name);
                 } else {
-                    return format!("{}: &[u8]", name);
+                    return format!("{}: &[u8]", safe_name);
                 }
             }
         }
@@ -267,16 +270,16 @@ impl CodeGenerator {
         if let Some(f) = func {
             if self.uses_pointer_arithmetic(f, name) {
                 let inner_type = Self::map_type(inner);
-                return format!("mut {}: *mut {}", name, inner_type);
+                return format!("mut {}: *mut {}", safe_name, inner_type);
             }
         }
         // DECY-168: void* parameters should stay as raw pointers
         if matches!(*inner, HirType::Void) {
-            return format!("{}: *mut ()", name);
+            return format!("{}: *mut ()", safe_name);
         }
         // Transform *mut T → &mut T for safety
         let inner_type = Self::map_type(inner);
-        format!("{}: &mut {}", name, inner_type)
+        format!("{}: &mut {}", safe_name, inner_type)
     }
 
     /// Append return type for annotated signature.
-- 
2.43.0


From ecab8df33ca896f2d7b7844386c8f7144e837679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:03 +0000
Subject: [PATCH 43/49] fix: an enum constant of INT_MAX no longer overflows
 the transpiler

---
 crates/decy-codegen/src/type_gen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/type_gen.rs b/crates/decy-codegen/src/type_gen.rs
index e9b3d6e..e679c58 100644
--- a/crates/decy-codegen/src/type_gen.rs
+++ b/crates/decy-codegen/src/type_gen.rs
@@ -482,11 +482,11 @@ impl CodeGenerator {
         let mut next_value: i32 = 0;
         for variant in hir_enum.variants() {
             let value = if let Some(v) = variant.value() {
-                next_value = v + 1; // Next auto value
+                next_value = v.wrapping_add(1); // Next auto value
                 v
             } else {
                 let v = next_value;
-                next_value += 1;
+                next_value = next_value.wrapping_add(1);
                 v
             };
             code.push_str(&format!("pub const {}: i32 = {};\n", variant.name(), value));
-- 
2.43.0


From 18488506afc3e7ef602a387a046da23b907487fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:39 +0000
Subject: [PATCH 44/49] fix: initialize global structs with constant literals
 of their own fields

---
 crates/decy-core/src/lib.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 7042175..336c7f9 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -887,11 +887,24 @@ fn transform_function_with_ownership(
 }
 
 fn const_struct_literal(struct_name: &str, hir_structs: &[decy_hir::HirStruct]) -> String {
+    const_struct_literal_with(struct_name, hir_structs, &[])
+}
+
+/// A struct literal with the given values for its first fields; the others are zero, as in C.
+fn const_struct_literal_with(
+    struct_name: &str,
+    hir_structs: &[decy_hir::HirStruct],
+    values: &[String],
+) -> String {
     if let Some(hir_struct) = hir_structs.iter().find(|s| s.name() == struct_name) {
         let field_inits: Vec<String> = hir_struct
             .fields()
             .iter()
-            .map(|f| {
+            .enumerate()
+            .map(|(i, f)| {
+                if let Some(value) = values.get(i) {
+                    return format!("{}: {}", f.name(), value);
+                }
                 let default_val = match f.field_type() {
                     decy_hir::HirType::Int => "0".to_string(),
                     decy_hir::HirType::UnsignedInt => "0".to_string(),
@@ -946,6 +959,14 @@ fn generate_initialized_global_code(
             } else {
                 code_generator.generate_expression(init_expr)
             }
+        } else if let (
+            decy_hir::HirType::Struct(sname),
+            decy_hir::HirExpression::CompoundLiteral { initializers, .. },
+        ) = (var_type, init_expr)
+        {
+            let values: Vec<String> =
+                initializers.iter().map(|e| code_generator.generate_expression(e)).collect();
+            const_struct_literal_with(sname, hir_structs, &values)
         } else {
             code_generator.generate_expression(init_expr)
         };
@@ -991,6 +1012,7 @@ fn generate_uninitialized_global_code(
                         format!("[{}; 0]", elem_default)
                     }
                 }
+                decy_hir::HirType::Struct(sname) => const_struct_literal(sname, hir_structs),
                 _ => "Default::default()".to_string(),
             };
             Some(format!("static mut {}: {} = {};\n", name, type_str, default_value))
-- 
2.43.0


From 9c476c6b9fb2d3a353d57c79c15ac6bb52cdd93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:06 +0000
Subject: [PATCH 45/49] fix: strip nested unsafe blocks with their own closing
 braces

---
 crates/decy-codegen/src/stmt_gen.rs | 47 ++++++++++++++---------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index cb38006..c0b9256 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -7,6 +7,28 @@
 use super::{escape_rust_keyword, CodeGenerator, TypeContext};
 use decy_hir::{BinaryOperator, HirExpression, HirStatement, HirType};
 
+/// DECY-261: Strip nested unsafe blocks, each with its own closing brace, to avoid redundancy
+fn strip_nested_unsafe(code: &str) -> String {
+    const OPEN: &str = "unsafe { ";
+    let mut result = code.to_string();
+    while let Some(start) = result.find(OPEN) {
+        let body = start + OPEN.len();
+        let mut depth = 1;
+        let close = result[body..].find(|c: char| {
+            match c {
+                '{' => depth += 1,
+                '}' => depth -= 1,
+                _ => {}
+            }
+            depth == 0
+        });
+        let Some(close) = close.map(|at| body + at) else { break };
+        let inner = result[body..close].trim_end().to_string();
+        result.replace_range(start..=close, &inner);
+    }
+    result
+}
+
 impl CodeGenerator {
     /// Generate code for a statement.
     pub fn generate_statement(&self, stmt: &HirStatement) -> String {
@@ -594,24 +616,6 @@ impl CodeGenerator {
             let target_type = ctx.get_type(target);
             let value_code = self.generate_expression_with_target_type(value, ctx, target_type);
 
-            // DECY-261: Helper to strip nested unsafe blocks to avoid redundancy
-            fn strip_nested_unsafe(code: &str) -> String {
-                // Iteratively strip all unsafe { } wrappers from the code
-                let mut result = code.to_string();
-                while result.contains("unsafe { ") {
-                    result = result.replace("unsafe { ", "").replace(" }", "");
-                    // Handle case where there might be multiple closings
-                    // Simple approach: strip pattern "unsafe { X }" → "X"
-                }
-                // More precise: use regex-like matching for simple cases
-                result = code.replace("unsafe { ", "").replacen(
-                    " }",
-                    "",
-                    code.matches("unsafe { ").count(),
-                );
-                result
-            }
-
             // DECY-241: Handle errno assignment specially
             if target == "errno" {
                 let clean_value = strip_nested_unsafe(&value_code);
@@ -1034,13 +1038,6 @@ impl CodeGenerator {
             if let HirExpression::Variable(name) = object {
                 if ctx.is_global(name) {
                     // Strip nested unsafe from value_code
-                    fn strip_nested_unsafe(code: &str) -> String {
-                        code.replace("unsafe { ", "").replacen(
-                            " }",
-                            "",
-                            code.matches("unsafe { ").count(),
-                        )
-                    }
                     let clean_value = strip_nested_unsafe(&value_code);
                     return format!("unsafe {{ {}.{} = {}; }}", name, escaped_field, clean_value);
                 }
-- 
2.43.0


From 318ecd31c0b92f3413bd09cdd04f166b3333be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:56 +0000
Subject: [PATCH 46/49] fix: keep the initializer lists of global arrays and
 structs

---
 crates/decy-parser/src/extract/types.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/types.rs b/crates/decy-parser/src/extract/types.rs
index ee6b9b5..0530336 100644
--- a/crates/decy-parser/src/extract/types.rs
+++ b/crates/decy-parser/src/extract/types.rs
@@ -5,7 +5,7 @@ use clang_sys::*;
 use std::ffi::CStr;
 use std::ptr;
 
-use super::expressions::visit_variable_initializer;
+use super::expressions::{visit_expression, visit_variable_initializer};
 use super::visit_statement;
 
 pub(crate) fn extract_function(cursor: CXCursor) -> Option<Function> {
@@ -514,6 +514,26 @@ pub(crate) fn extract_variable(cursor: CXCursor) -> Option<Variable> {
         clang_visitChildren(cursor, visit_variable_initializer, initializer_ptr as CXClientData);
     }
 
+    // An array or struct is initialized by a list (the size of an array is no initializer)
+    let is_aggregate = match &var_type {
+        Type::Array { element_type, size: Some(_) } => matches!(
+            **element_type,
+            Type::Int | Type::UnsignedInt | Type::Char | Type::SignedChar | Type::Float | Type::Double
+        ),
+        Type::Struct(_) => true,
+        _ => false,
+    };
+    if is_aggregate {
+        let mut list: Option<Expression> = None;
+        let list_ptr = &mut list as *mut Option<Expression>;
+        unsafe {
+            clang_visitChildren(cursor, visit_expression, list_ptr as CXClientData);
+        }
+        if matches!(list, Some(Expression::CompoundLiteral { .. })) {
+            initializer = list;
+        }
+    }
+
     Some(Variable::new_with_storage_class(
         name,
         var_type,
-- 
2.43.0


From 105b27de534fa0378158354f5f1191bed459697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:56 +0000
Subject: [PATCH 47/49] fix: name the parameters that a prototype leaves
 unnamed

---
 crates/decy-hir/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/decy-hir/src/lib.rs b/crates/decy-hir/src/lib.rs
index 7a345ef..58da366 100644
--- a/crates/decy-hir/src/lib.rs
+++ b/crates/decy-hir/src/lib.rs
@@ -866,7 +866,19 @@ impl HirFunction {
         Self {
             name: ast_func.name.clone(),
             return_type: HirType::from_ast_type(&ast_func.return_type),
-            parameters: ast_func.parameters.iter().map(HirParameter::from_ast_parameter).collect(),
+            parameters: ast_func
+                .parameters
+                .iter()
+                .enumerate()
+                .map(|(i, p)| {
+                    let mut param = HirParameter::from_ast_parameter(p);
+                    // A prototype need not name its parameters
+                    if param.name.is_empty() {
+                        param.name = format!("arg{}", i);
+                    }
+                    param
+                })
+                .collect(),
             body,
             cuda_qualifier,
         }
-- 
2.43.0


From a064d34455bc91dd46c638513ba20a6097d0e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:56 +0000
Subject: [PATCH 48/49] fix: *p op= e reads the pointed-to value, not the
 pointer

---
 crates/decy-hir/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/decy-hir/src/lib.rs b/crates/decy-hir/src/lib.rs
index 58da366..b447643 100644
--- a/crates/decy-hir/src/lib.rs
+++ b/crates/decy-hir/src/lib.rs
@@ -1431,11 +1431,18 @@ impl HirStatement {
             // These become DerefAssignment with a BinaryOp value
             Statement::DerefCompoundAssignment { target, op, value } => {
                 let hir_target = HirExpression::from_ast_expression(target);
+                // Fields and elements are the places themselves, anything else points to its place
+                let place = match &hir_target {
+                    HirExpression::FieldAccess { .. }
+                    | HirExpression::PointerFieldAccess { .. }
+                    | HirExpression::ArrayIndex { .. } => hir_target.clone(),
+                    _ => HirExpression::Dereference(Box::new(hir_target.clone())),
+                };
                 HirStatement::DerefAssignment {
-                    target: hir_target.clone(),
+                    target: hir_target,
                     value: HirExpression::BinaryOp {
                         op: convert_binary_operator(*op),
-                        left: Box::new(hir_target),
+                        left: Box::new(place),
                         right: Box::new(HirExpression::from_ast_expression(value)),
                     },
                 }
-- 
2.43.0


From ee41ba031028dc30e47529fedff99d0d0380b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:56 +0000
Subject: [PATCH 49/49] fix: compound assignment to an element or field of a
 global

---
 crates/decy-codegen/src/stmt_gen.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index c0b9256..4fa8c9a 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -852,6 +852,20 @@ impl CodeGenerator {
         // sb->capacity = value should generate (*sb).capacity = value, not *(*sb).capacity = value
         // DECY-254: ArrayIndex also doesn't need extra dereference
         // arr[i] *= 2 should generate arr[(i) as usize] = arr[(i) as usize] * 2
+        // A part of a global is a place only inside the unsafe block
+        match target {
+            HirExpression::ArrayIndex { array, index }
+                if matches!(&**array, HirExpression::Variable(name) if ctx.is_global(name)) =>
+            {
+                return self.generate_array_index_assignment_statement(array, index, value, ctx);
+            }
+            HirExpression::FieldAccess { object, field }
+                if matches!(&**object, HirExpression::Variable(name) if ctx.is_global(name)) =>
+            {
+                return self.generate_field_assignment_statement(object, field, value, ctx);
+            }
+            _ => {}
+        }
         if matches!(
             target,
             HirExpression::PointerFieldAccess { .. }
-- 
2.43.0

