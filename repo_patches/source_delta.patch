From 280c34e4460426dcbf7cd234b1142cf4b6f83d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 01/26] fix: access result and branch_failed variables by
 reference in continuation closures

A choice whose success continuation is hoisted into a closure receives
these variables as `&mut T`, whereas the inlined code declares them by
value: assignments did not type check in one of the two contexts.
---
 src/liboak/back/compiler/choice.rs   | 6 +++---
 src/liboak/back/compiler/optional.rs | 2 +-
 src/liboak/back/context.rs           | 7 ++++++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/liboak/back/compiler/choice.rs b/src/liboak/back/compiler/choice.rs
index a45dba0..bc28879 100644
--- a/src/liboak/back/compiler/choice.rs
+++ b/src/liboak/back/compiler/choice.rs
@@ -58,7 +58,7 @@ impl CompileExpr for ChoiceCompiler
       .map(|idx| {
         context.restore_scope(scope.clone());
         let b = branch_failed.clone();
-        let success: syn::Stmt = parse_quote!(#b = false;);
+        let success: syn::Stmt = parse_quote!(*#b = false;);
         continuation.compile_and_wrap(context, self.compiler, idx, success)
       })
       .collect();
@@ -76,7 +76,7 @@ impl CompileExpr for ChoiceCompiler
       .rev()
       .fold(parse_quote!(state), |accu: syn::Expr, branch|
         parse_quote!({
-          if #branch_failed {
+          if *#branch_failed {
             let mut state = state.restore_from_failure(#mark.clone());
             let state = #branch;
             #accu
@@ -86,7 +86,7 @@ impl CompileExpr for ChoiceCompiler
 
     parse_quote!({
       let #mark = state.mark();
-      let mut #branch_failed = true;
+      let #branch_failed = &mut true;
       let state = #first;
       #choice
     })
diff --git a/src/liboak/back/compiler/optional.rs b/src/liboak/back/compiler/optional.rs
index 34853c7..9a8f11e 100644
--- a/src/liboak/back/compiler/optional.rs
+++ b/src/liboak/back/compiler/optional.rs
@@ -63,7 +63,7 @@ impl OptionalCompiler
 
   fn value_constructor(result_var: Ident, result_value: syn::Expr) -> syn::Expr {
     parse_quote!({
-      #result_var = Some(#result_value);
+      *#result_var = Some(#result_value);
       state
     })
   }
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 170ff1a..2edb1ee 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -141,6 +141,11 @@ impl<'a> Context<'a>
       .compile_success(self, parser_compiler, expr_idx)
       .unwrap_success();
     self.close_scope(scope);
+    // Inside `body`, the result is always accessed through a mutable reference (see `closure_args`).
+    let body = parse_quote!({
+      let #result_var = &mut #result_var;
+      #body
+    });
     (body, result_var)
   }
 
@@ -185,7 +190,7 @@ impl<'a> Context<'a>
       .into_iter()
       .chain(self.mut_ref_free_variables
         .iter().cloned()
-        .map(|(var, _)| parse_quote!(&mut #var)))
+        .map(|(var, _)| parse_quote!(&mut *#var)))
       .chain(self.free_variables
         .iter()
         .map(|var| parse_quote!(#var)))
-- 
2.43.0


From baf56feca7d22dea7bec18f27770f405b22ceec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 02/26] fix: compile predicates and recognized sub-expressions
 without the outer free variables

The variables bound on the left of a predicate (or of a repeat/optional
under unit) were passed by value to the continuation closures of the
choices inside it, hence moved although the predicate never uses them.
---
 src/liboak/back/compiler/syntactic_predicate.rs |  7 +------
 src/liboak/back/context.rs                      | 12 ++++++++++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/liboak/back/compiler/syntactic_predicate.rs b/src/liboak/back/compiler/syntactic_predicate.rs
index 9799032..5fcff65 100644
--- a/src/liboak/back/compiler/syntactic_predicate.rs
+++ b/src/liboak/back/compiler/syntactic_predicate.rs
@@ -37,12 +37,7 @@ impl SyntacticPredicateCompiler
     success_case: syn::Expr, failure_case: syn::Expr) -> syn::Expr
   {
     let mark = context.next_mark_name();
-    let expr = Continuation::new(
-        parse_quote!(state),
-        parse_quote!(state.failure())
-      )
-      .compile_success(context, recognizer_compiler, self.expr_idx)
-      .unwrap_success();
+    let expr = context.compile_recognizer_expr(self.expr_idx);
     parse_quote!(
       {
         let #mark = state.mark();
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 2edb1ee..45ead42 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -114,13 +114,21 @@ impl<'a> Context<'a>
     expr
   }
 
+  /// Compile `idx` as a self-contained recognizer: its success continuation only returns the state, so no variable of the surrounding expression occurs free in it.
   pub fn compile_recognizer_expr(&mut self, idx: usize) -> syn::Expr {
-    Continuation::new(
+    let scope = self.save_scope();
+    self.free_variables = vec![];
+    self.mut_ref_free_variables = vec![];
+    let expr = Continuation::new(
       parse_quote!(state),
       parse_quote!(state.failure())
     )
     .compile_success(self, recognizer_compiler, idx)
-    .unwrap_success()
+    .unwrap_success();
+    let num_combinators_compiled = self.num_combinators_compiled;
+    self.restore_scope(scope);
+    self.num_combinators_compiled = num_combinators_compiled;
+    expr
   }
 
   pub fn value_constructor<F>(&mut self,
-- 
2.43.0


From a41836ab34df4e383702da2e0a9d9d11e4400b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 03/26] fix: keep the outer variables free when compiling under
 a semantic action

The success continuation of a semantic action is compiled under it, but
the scope opened for its arguments hid the variables (and the failure
flags of the enclosing choices) occurring in that continuation.
---
 src/liboak/back/compiler/semantic_action.rs | 10 ++++------
 src/liboak/back/context.rs                  |  8 ++++++++
 src/liboak/back/mod.rs                      |  3 ++-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/liboak/back/compiler/semantic_action.rs b/src/liboak/back/compiler/semantic_action.rs
index 0b2849e..b8d9fce 100644
--- a/src/liboak/back/compiler/semantic_action.rs
+++ b/src/liboak/back/compiler/semantic_action.rs
@@ -36,8 +36,8 @@ impl CompileExpr for SemanticActionCompiler
     continuation: Continuation) -> syn::Expr
   {
     let result = context.next_free_var();
-    let scope = context.open_scope(self.expr_idx);
-    let args: Vec<syn::Expr> = context.free_variables().into_iter()
+    // The success continuation is part of the code generated under the action, thus the variables occurring in it stay free.
+    let args: Vec<syn::Expr> = context.push_free_variables(self.expr_idx).into_iter()
       .map(|var| parse_quote!(#var))
       .collect();
     let action = self.action.clone();
@@ -51,7 +51,7 @@ impl CompileExpr for SemanticActionCompiler
           else { false }
         _ => false
       };
-    let expr = continuation
+    continuation
       .map_success(|success, _| {
         let action_call: syn::Expr =
           if is_unit_variant {
@@ -68,8 +68,6 @@ impl CompileExpr for SemanticActionCompiler
           #success
         })})
       .compile_success(context, parser_compiler, self.expr_idx)
-      .unwrap_success();
-    context.close_scope(scope);
-    expr
+      .unwrap_success()
   }
 }
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 45ead42..ca65790 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -244,6 +244,14 @@ impl<'a> Context<'a>
     self.free_variables.clone()
   }
 
+  /// Add the fresh variables that must be bound by `expr_idx` to the current scope.
+  pub fn push_free_variables(&mut self, expr_idx: usize) -> Vec<Ident> {
+    let cardinality = self.expr_cardinality(expr_idx);
+    let free_vars = self.name_factory.fresh_vars(cardinality);
+    self.free_variables.extend(free_vars.iter().cloned());
+    free_vars
+  }
+
   pub fn push_mut_ref_fv(&mut self, mut_ref_var: Ident, mut_ref_ty: syn::Type) {
     self.mut_ref_free_variables.push((mut_ref_var,mut_ref_ty));
   }
diff --git a/src/liboak/back/mod.rs b/src/liboak/back/mod.rs
index 5b7df88..e41cd5e 100644
--- a/src/liboak/back/mod.rs
+++ b/src/liboak/back/mod.rs
@@ -105,7 +105,8 @@ For instance, a value of type `(T1, Option<(T2, T3)>)` is given by two variables
 However, to build `y` of type `Option<(T2, T3)>`, we need two more names `w, z`, so we can build `Some((w, z))`.
 Thus, the free variables are only interesting for a given scope, and when building the full expression.
 Scopes are managed by the `context.open_scope` and `context.close_scope` functions.
-We open a new scope when crossing a type such as Option or List, but also for semantic actions.
+We open a new scope when crossing a type such as Option or List.
+The arguments of a semantic action are added to the current scope since its success continuation is compiled under the action.
 When building the value `(T2, T3)`, we only care about `w` and `z`, hence if a continuation function should be build for `e`, we only need to pass `w` and `z` to it, and not `x` and `y`.
 */
 
-- 
2.43.0


From 847e659d615b26441e8901c182c9d2e3dc679b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 04/26] fix: do not move the bound variables in each branch of
 a choice

A value bound before a choice was moved by the success continuation of
every branch, which the borrow checker rejects unless it is `Copy`, e.g.
`r = ["a-z"]+ ("x" / "y")` did not compile.
---
 src/liboak/back/compiler/choice.rs | 23 +++++++++++++++++++----
 src/liboak/back/compiler/mod.rs    |  2 +-
 src/liboak/back/context.rs         | 19 +++++++++++++++++++
 3 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/liboak/back/compiler/choice.rs b/src/liboak/back/compiler/choice.rs
index bc28879..0967a27 100644
--- a/src/liboak/back/compiler/choice.rs
+++ b/src/liboak/back/compiler/choice.rs
@@ -17,7 +17,9 @@ use back::compiler::*;
 pub struct ChoiceCompiler
 {
   choices: Vec<usize>,
-  compiler: ExprCompilerFn
+  compiler: ExprCompilerFn,
+  // Number of variables bound by each branch.
+  cardinality: usize
 }
 
 impl ChoiceCompiler
@@ -25,14 +27,16 @@ impl ChoiceCompiler
   pub fn recognizer(choices: Vec<usize>) -> ChoiceCompiler {
     ChoiceCompiler {
       choices: choices,
-      compiler: recognizer_compiler
+      compiler: recognizer_compiler,
+      cardinality: 0
     }
   }
 
-  pub fn parser(choices: Vec<usize>) -> ChoiceCompiler {
+  pub fn parser(choices: Vec<usize>, cardinality: usize) -> ChoiceCompiler {
     ChoiceCompiler {
       choices: choices,
-      compiler: parser_compiler
+      compiler: parser_compiler,
+      cardinality: cardinality
     }
   }
 }
@@ -45,6 +49,15 @@ impl CompileExpr for ChoiceCompiler
     // Since we copy the success continuation for each branch, to avoid code explosion, we can extract it into a closure shared by all branches under criterion maintained by the context.
     continuation = context.success_as_closure(continuation);
 
+    // The variables already bound when entering the choice are used by the success continuation of each branch.
+    // At most one of these continuations is executed, but they would all move the variables, thus we share them between the branches through an option.
+    let outer_scope = context.save_scope();
+    let shared_vars = context.share_free_variables(self.cardinality);
+    continuation = continuation.map_success(|success, _| parse_quote!({
+      #(let #shared_vars = #shared_vars.take().expect("variable moved by a previous branch");)*
+      #success
+    }));
+
     let mark = context.next_mark_name();
     let branch_failed = context.next_branch_failed_name();
     context.push_mut_ref_fv(branch_failed.clone(), parse_quote!(bool));
@@ -68,6 +81,7 @@ impl CompileExpr for ChoiceCompiler
     context.pop_mut_ref_fv();
     let (success, failure) = continuation.unwrap();
     branches.push(context.compile(self.compiler, last, success, failure));
+    context.leave_shared_scope(outer_scope, self.cardinality);
 
     let mut branches_iter = branches.into_iter();
     let first = branches_iter.next().unwrap();
@@ -87,6 +101,7 @@ impl CompileExpr for ChoiceCompiler
     parse_quote!({
       let #mark = state.mark();
       let #branch_failed = &mut true;
+      #(let #shared_vars = &mut Some(#shared_vars);)*
       let state = #first;
       #choice
     })
diff --git a/src/liboak/back/compiler/mod.rs b/src/liboak/back/compiler/mod.rs
index f81f560..3d3575d 100644
--- a/src/liboak/back/compiler/mod.rs
+++ b/src/liboak/back/compiler/mod.rs
@@ -70,7 +70,7 @@ pub fn parser_compiler(grammar: &TGrammar, idx: usize) -> Box<dyn CompileExpr> {
       CharacterClass(classes) => Box::new(CharacterClassCompiler::parser(classes)),
       AnySingleChar => Box::new(AnySingleCharCompiler::parser()),
       Sequence(seq) => Box::new(SequenceCompiler::parser(seq)),
-      Choice(choices) => Box::new(ChoiceCompiler::parser(choices)),
+      Choice(choices) => Box::new(ChoiceCompiler::parser(choices, grammar[idx].type_cardinality())),
       ZeroOrOne(expr_idx) => Box::new(OptionalCompiler::parser(expr_idx)),
       ZeroOrMore(expr_idx) => Box::new(RepeatCompiler::parser(expr_idx, 0)),
       OneOrMore(expr_idx) => Box::new(RepeatCompiler::parser(expr_idx, 1)),
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index ca65790..93f70dd 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -252,6 +252,25 @@ impl<'a> Context<'a>
     free_vars
   }
 
+  /// Turn the free variables, but the `cardinality` last ones, into mutable references to an option (see `ChoiceCompiler`).
+  pub fn share_free_variables(&mut self, cardinality: usize) -> Vec<Ident> {
+    let num_shared = self.free_variables.len() - cardinality;
+    let shared_vars: Vec<_> = self.free_variables.drain(..num_shared).collect();
+    for var in &shared_vars {
+      self.push_mut_ref_fv(var.clone(), parse_quote!(Option<_>));
+    }
+    shared_vars
+  }
+
+  /// Restore the scope saved before `share_free_variables`, in which the `cardinality` last variables have been bound since then.
+  pub fn leave_shared_scope(&mut self, scope: Scope, cardinality: usize) {
+    let num_combinators_compiled = self.num_combinators_compiled;
+    self.restore_scope(scope);
+    self.num_combinators_compiled = num_combinators_compiled;
+    let num_free_vars = self.free_variables.len() - cardinality;
+    self.free_variables.truncate(num_free_vars);
+  }
+
   pub fn push_mut_ref_fv(&mut self, mut_ref_var: Ident, mut_ref_ty: syn::Type) {
     self.mut_ref_free_variables.push((mut_ref_var,mut_ref_ty));
   }
-- 
2.43.0


From 31effb111e1263ac16004550037bb372a2955fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 05/26] fix: reject a span operator in the middle of a sequence

`..` was tested after `.`, so `"a" .. "b"` was silently parsed as two
`.` expressions instead of reporting the error meant for this case.
---
 src/liboak/front/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/liboak/front/parser.rs b/src/liboak/front/parser.rs
index 24df064..4af9d6f 100644
--- a/src/liboak/front/parser.rs
+++ b/src/liboak/front/parser.rs
@@ -322,6 +322,13 @@ impl FGrammar {
         let lit_str: LitStr = ps.parse()?;
         Some(self.alloc_expr(span, StrLiteral(lit_str.value())))
       }
+      // The tokens `..` and `...` must be tested before `.` because they share the same prefix.
+      else if ps.peek(Token![..]) {
+        return Err(Error::new(span,
+          format!("A span expression `.. e1 e2` must always start a sequence (in rule {}). \
+            You can force this by grouping the spanned expression with parenthesis: `e1 (.. e2)` instead of `e1 .. e2`.",
+            rule_name).as_str()));
+      }
       // Any character `.`
       else if ps.peek(Token![.]) {
         let _: Token![.] = ps.parse()?;
@@ -352,12 +359,6 @@ impl FGrammar {
         let _ = bracketed!(sub_ps in ps);
         Some(self.parse_char_class(&sub_ps, span, rule_name)?)
       }
-      else if ps.peek(Token![..]) {
-        return Err(Error::new(span,
-          format!("A span expression `.. e1 e2` must always start a sequence (in rule {}). \
-            You can force this by grouping the spanned expression with parenthesis: `e1 (.. e2)` instead of `e1 .. e2`.",
-            rule_name).as_str()));
-      }
       else {
         None
       };
-- 
2.43.0


From 60b8dbccc142bacfebf4071cd4d977ee66d51db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 06/26] fix: do not cut a multi-byte character in code snippets

`code_snippet` sliced the input at a byte count, which panics when it
falls in the middle of a character: printing the parse error of a
non-ASCII input crashed.
---
 runtime/src/str_stream.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/runtime/src/str_stream.rs b/runtime/src/str_stream.rs
index 2465b37..3f11260 100644
--- a/runtime/src/str_stream.rs
+++ b/runtime/src/str_stream.rs
@@ -140,8 +140,12 @@ impl<'a> CodeSnippet for StrStream<'a>
       String::from("<end-of-file>")
     }
     else {
-      let len = min(total_len - current_offset, len_hint);
-      String::from(&self.raw_data[current_offset..][..len])
+      let mut end_offset = current_offset + min(total_len - current_offset, len_hint);
+      // Do not cut a multi-byte character.
+      while !self.raw_data.is_char_boundary(end_offset) {
+        end_offset -= 1;
+      }
+      String::from(&self.raw_data[current_offset..end_offset])
     }
   }
 }
-- 
2.43.0


From 3bfd19de2c2313f2575b2d66a3f86fb6e4440a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 07/26] fix: take CRLF line endings into account in locations

`str::lines` also strips the `\r` of `\r\n`, so every location after
such a line ending was shifted (in both streams).
---
 runtime/src/file_map_stream.rs | 6 +++---
 runtime/src/str_stream.rs      | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime/src/file_map_stream.rs b/runtime/src/file_map_stream.rs
index d14abbe..3179b85 100644
--- a/runtime/src/file_map_stream.rs
+++ b/runtime/src/file_map_stream.rs
@@ -50,11 +50,11 @@ impl<'a> FileMapStream<'a>
     // Mostly from Rust compiler (codemap.rs).
     if filemap.count_lines() == 0 {
       let mut byte_pos: u32 = filemap.start_pos.0;
-      for line in src.lines() {
+      for line in src.split_inclusive('\n') {
         // register the start of this line
         filemap.next_line(BytePos(byte_pos));
-        // update byte_pos to include this line and the \n at the end
-        byte_pos += line.len() as u32 + 1;
+        // update byte_pos to include this line (with its end-of-line)
+        byte_pos += line.len() as u32;
       }
     }
   }
diff --git a/runtime/src/str_stream.rs b/runtime/src/str_stream.rs
index 3f11260..bb3321b 100644
--- a/runtime/src/str_stream.rs
+++ b/runtime/src/str_stream.rs
@@ -63,7 +63,7 @@ impl<'a> StrStream<'a>
   pub fn line_column(&self) -> (usize, usize) {
     let mut remaining = self.bytes_offset;
     let mut line_no = 1usize;
-    for line in self.raw_data.lines() {
+    for line in self.raw_data.split('\n') {
       let line_len = line.len() + 1;
       if remaining < line_len {
         break;
-- 
2.43.0


From a856c06494f5180162079d85fdaeab3eded75569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 08/26] fix: generate the Rust functions of a grammar in a
 deterministic order

They were stored in a HashMap, so two compilations of the same grammar
produced different code.
---
 src/liboak/ast.rs                       | 6 +++---
 src/liboak/middle/analysis/duplicate.rs | 1 -
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/liboak/ast.rs b/src/liboak/ast.rs
index aa4876f..28ba239 100644
--- a/src/liboak/ast.rs
+++ b/src/liboak/ast.rs
@@ -26,7 +26,7 @@ pub use middle::typing::ast::Type;
 
 use middle::analysis::ast::GrammarAttributes;
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::default::Default;
 use std::ops::{Index, IndexMut};
 
@@ -44,7 +44,7 @@ pub struct Grammar<ExprInfo>
   pub exprs: Vec<Expression>,
   pub exprs_info: Vec<ExprInfo>,
   pub stream_alias: syn::ItemType,
-  pub rust_functions: HashMap<Ident, syn::ItemFn>,
+  pub rust_functions: BTreeMap<Ident, syn::ItemFn>,
   pub rust_items: Vec<syn::Item>,
   pub attributes: GrammarAttributes
 }
@@ -60,7 +60,7 @@ impl<ExprInfo> Grammar<ExprInfo>
       exprs,
       exprs_info,
       stream_alias: parse_quote!(pub type Stream<'a> = StrStream<'a>;),
-      rust_functions: HashMap::new(),
+      rust_functions: BTreeMap::new(),
       rust_items: vec![],
       attributes: GrammarAttributes::default()
     }
diff --git a/src/liboak/middle/analysis/duplicate.rs b/src/liboak/middle/analysis/duplicate.rs
index 8b65c46..9cb5a02 100644
--- a/src/liboak/middle/analysis/duplicate.rs
+++ b/src/liboak/middle/analysis/duplicate.rs
@@ -12,7 +12,6 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-pub use std::collections::HashMap;
 
 use middle::analysis::ast::*;
 use partial::Partial::*;
-- 
2.43.0


From 779f67271f40c64881662592bf2588db56c74faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 09/26] fix: list the expected items of an error in a
 deterministic order

They were stored in a HashSet, so the same error was printed differently
from one run to the next.
---
 runtime/src/parse_state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/parse_state.rs b/runtime/src/parse_state.rs
index 8153d33..3844736 100644
--- a/runtime/src/parse_state.rs
+++ b/runtime/src/parse_state.rs
@@ -16,7 +16,7 @@
 
 use stream::*;
 use self::ParseResult::*;
-use std::collections::hash_set::HashSet;
+use std::collections::BTreeSet;
 use std::cmp::Ord;
 use std::fmt::{Formatter, Debug, Error};
 
@@ -36,7 +36,7 @@ impl<S, T, R> IntoState<S, T> for R where
 
 pub struct ParseExpectation<S>
 {
-  expected: HashSet<&'static str>,
+  expected: BTreeSet<&'static str>,
   farthest_read: S
 }
 
-- 
2.43.0


From f7b2cfd801ae3e2baab86c413428c9a395f21549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 10/26] fix: only suggest equivalent expressions in the useless
 chaining lint

(e+)* is equivalent to e*, a sequence cannot be replaced by its first
component and, among the considered operators, only & distributes over
the choice.
---
 src/liboak/middle/analysis/useless_chaining.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/liboak/middle/analysis/useless_chaining.rs b/src/liboak/middle/analysis/useless_chaining.rs
index 4e46fdd..9acfce1 100644
--- a/src/liboak/middle/analysis/useless_chaining.rs
+++ b/src/liboak/middle/analysis/useless_chaining.rs
@@ -26,7 +26,7 @@
 //! e?+         Taken care of by WFA.
 //! e?*         Taken care of by WFA.
 //! e+? -> e*
-//! e+* -> e+
+//! e+* -> e*
 //! e++ -> e+
 //! e*? -> e*
 //! e*+         Taken care of by WFA.
@@ -96,7 +96,7 @@ impl <'a> UselessChaining<'a>
       (POptional, POneOrMore, false) => self.warn_useless_chaining(span, "(e+)?", "e*"),
       (POptional, PZeroOrMore, _) => self.warn_useless_chaining(span, "(e*)?", "e*"),
       (POneOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)+", "e+"),
-      (PZeroOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)*", "e+"),
+      (PZeroOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)*", "e*"),
       (PZeroOrMore, PZeroOrMore, _) => self.warn_useless_chaining(span, "(e*)*", "e*"),
       (_, _, _) => false // The rest is either valid or taken care of by WFA.
     }
@@ -153,8 +153,9 @@ impl<'a> Visitor<(PredicateOrRepeat, bool)> for InnerPredicateOrRepeat<'a> {
   }
 
 
-  fn visit_sequence(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
-    self.visit_expr(children[0])
+  // A sequence is not equivalent to its first component: `!(!a b)` or `(a+ b)+` cannot be simplified.
+  fn visit_sequence(&mut self, _: usize, _children: Vec<usize>) -> (PredicateOrRepeat, bool) {
+    (PNothing, false)
   }
 
   fn visit_choice(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
@@ -166,7 +167,11 @@ impl<'a> Visitor<(PredicateOrRepeat, bool)> for InnerPredicateOrRepeat<'a> {
       }
       crossed_rule |= crossed_rule2;
     }
-    (pred_or_repeat, crossed_rule)
+    // `&a / &b` is equivalent to `&(a / b)`, but the other operators do not distribute over the choice.
+    match pred_or_repeat {
+      PAnd => (PAnd, crossed_rule),
+      _ => (PNothing, false)
+    }
   }
 }
 
-- 
2.43.0


From 4079c58697d992bf322b5c29ed4982f1f16a31b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 11/26] fix: warn about infinite types of self-recursive rules

The type of a rule reduced at its own entry point was not reported by
the infinite recursive type warning.
---
 src/liboak/middle/typing/depth.rs   | 8 +-------
 src/liboak/middle/typing/surface.rs | 6 ++++++
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index 21dc3a0..d654c75 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -107,13 +107,7 @@ impl Depth
   }
 
   fn warn_recursive_type(&mut self) {
-    let mut rec_set = RecSet::empty();
-    for rule in &self.surface.grammar.rules {
-      if let Rec(r) = self.type_of(rule.expr_idx) {
-        rec_set = rec_set.union(r);
-      }
-    }
-    rec_set = rec_set.keep_only_polymorphic_paths();
+    let rec_set = self.surface.rec_paths.clone().keep_only_polymorphic_paths();
     if !rec_set.is_empty() {
       for rec_path in rec_set.path_set {
         self.surface.grammar.find_rule_by_ident(&rec_path.path[0]).span().unstable()
diff --git a/src/liboak/middle/typing/surface.rs b/src/liboak/middle/typing/surface.rs
index 08c0571..8258d0b 100644
--- a/src/liboak/middle/typing/surface.rs
+++ b/src/liboak/middle/typing/surface.rs
@@ -25,6 +25,8 @@ pub struct Surface
 {
   pub grammar: IGrammar,
   pub error: bool,
+  /// Recursive paths found so far, including those already reduced at their entry point.
+  pub rec_paths: RecSet,
   recursion_path: Vec<Ident>
 }
 
@@ -34,6 +36,7 @@ impl Surface
     Surface {
       grammar: grammar,
       error: false,
+      rec_paths: RecSet::empty(),
       recursion_path: vec![]
     }
   }
@@ -60,6 +63,9 @@ impl Surface
         self.recursion_path.push(rule_name.clone());
         let ty = self.visit_expr(expr_idx);
         self.recursion_path.pop();
+        if let Rec(ref r) = ty {
+          self.rec_paths = self.rec_paths.clone().union(r.clone());
+        }
         let reduced_ty = TypeRewriting::reduce_rec_entry_point(&self.grammar, rule_name, ty);
         self.type_expr(expr_idx, reduced_ty)
       }
-- 
2.43.0


From 08d462f1e766e2d0f829d4e7df15b51a1eaf2947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 12/26] fix: do not type the operand of a semantic action under
 a unit context

---
 src/liboak/middle/typing/depth.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index d654c75..a479abc 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -207,7 +207,9 @@ impl Visitor<()> for Depth
 
   // We rely on the Rust compiler to spot type mismatch between semantic action's return type and type ascription.
   fn visit_semantic_action(&mut self, _this: usize, child: usize, _boxed: bool, _action: syn::Expr) {
-    self.surface_expr(child);
+    if !self.under_unit {
+      self.surface_expr(child);
+    }
     self.visit_expr_switch_ascription(child, None);
   }
 }
-- 
2.43.0


From e40f899249a50a010955b2e6e0cd6ffe7346c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 13/26] fix: accept any type ascription under a unit context

---
 src/liboak/middle/typing/depth.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index a479abc..6b10779 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -196,10 +196,10 @@ impl Visitor<()> for Depth
   }
 
   fn visit_type_ascription(&mut self, this: usize, child: usize, ty: IType) {
-    if let Some(aty) = self.under_ty_ascription.clone() {
-      self.error_if_not_match_ty_ascription(this, ty.clone(), aty);
-    }
     if !self.under_unit {
+      if let Some(aty) = self.under_ty_ascription.clone() {
+        self.error_if_not_match_ty_ascription(this, ty.clone(), aty);
+      }
       self.surface_expr(child);
     }
     self.visit_expr_switch_ascription(child, Some(ty));
-- 
2.43.0


From 4451e094d572ab6d0550bd74ace4e66821d1a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 14/26] fix: do not apply the type ascription of a span or a
 range to its operand

---
 src/liboak/middle/typing/depth.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index 6b10779..a854556 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -205,6 +205,15 @@ impl Visitor<()> for Depth
     self.visit_expr_switch_ascription(child, Some(ty));
   }
 
+  // The type ascription applies to the span or the range, not to the expression spanned.
+  fn visit_spanned_expr(&mut self, _this: usize, child: usize) {
+    self.visit_expr_switch_ascription(child, None);
+  }
+
+  fn visit_range_expr(&mut self, _this: usize, child: usize) {
+    self.visit_expr_switch_ascription(child, None);
+  }
+
   // We rely on the Rust compiler to spot type mismatch between semantic action's return type and type ascription.
   fn visit_semantic_action(&mut self, _this: usize, child: usize, _boxed: bool, _action: syn::Expr) {
     if !self.under_unit {
-- 
2.43.0


From 078cccdd5500e3d75054715378f483f67b510cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 15/26] fix: keep the where clause of the stream type in the
 generated functions

---
 src/liboak/back/context.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 93f70dd..cf56365 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -73,10 +73,12 @@ impl<'a> Context<'a>
     let state_param = self.state_param(state_mut);
     let stream_ty = self.grammar.stream_type();
     let generics = self.grammar.stream_generics();
+    let where_clause = generics.where_clause.clone();
     let closures = self.closures;
     parse_quote!(
       #[inline]
       pub fn #name #generics (#state_param) -> oak_runtime::ParseState<#stream_ty, #ty>
+       #where_clause
       {
         #(#closures)*
         #body
-- 
2.43.0


From 1bb960923c01b7462008dd2774e92dddc57a8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 16/26] fix: type mutually recursive rules together

---
 src/liboak/middle/typing/ast.rs            |  11 +-
 src/liboak/middle/typing/depth.rs          |  25 +--
 src/liboak/middle/typing/surface.rs        | 180 +++++++++++++++++----
 src/liboak/middle/typing/type_rewriting.rs |  35 ++--
 4 files changed, 176 insertions(+), 75 deletions(-)

diff --git a/src/liboak/middle/typing/ast.rs b/src/liboak/middle/typing/ast.rs
index 0026c15..635b940 100644
--- a/src/liboak/middle/typing/ast.rs
+++ b/src/liboak/middle/typing/ast.rs
@@ -257,11 +257,12 @@ impl RecSet
     }
   }
 
-  pub fn keep_only_polymorphic_paths(self) -> Self {
-    RecSet {
-      path_set: self.path_set.into_iter()
-        .filter(|path| path.kind == RecKind::Poly)
-        .collect()
+  /// Add `path` if it does not go through the same rules than a path already in the set.
+  pub fn add_cycle(&mut self, path: RecPath) {
+    let contained = self.path_set.iter()
+      .any(|p| p.path.len() == path.path.len() && p.path.iter().all(|rule| path.path.contains(rule)));
+    if !contained {
+      self.path_set.push(path);
     }
   }
 
diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index a854556..1cd9671 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -34,7 +34,6 @@ impl Depth
     engine.surface.surface();
     if engine.surface.error { return Partial::Nothing }
     engine.warn_recursive_type();
-    engine.reduce_all_rec();
     engine.depth();
     if engine.surface.error { return Partial::Nothing }
     engine.reduce_all_invisible();
@@ -70,14 +69,6 @@ impl Depth
     }
   }
 
-  fn reduce_all_rec(&mut self) {
-    let tys: Vec<_> = self.surface.grammar.exprs_info.iter().map(|e| e.ty.clone()).collect();
-    let tys: Vec<_> = tys.into_iter().map(|ty| TypeRewriting::reduce_rec(&self.surface.grammar, ty)).collect();
-    for (expr_info, ty) in self.surface.grammar.exprs_info.iter_mut().zip(tys.into_iter()) {
-      expr_info.ty = ty;
-    }
-  }
-
   fn reduce_all_invisible(&mut self) {
     for expr_info in self.surface.grammar.exprs_info.clone() {
       let ty = TypeRewriting::reduce_final(expr_info.ty);
@@ -107,14 +98,11 @@ impl Depth
   }
 
   fn warn_recursive_type(&mut self) {
-    let rec_set = self.surface.rec_paths.clone().keep_only_polymorphic_paths();
-    if !rec_set.is_empty() {
-      for rec_path in rec_set.path_set {
-        self.surface.grammar.find_rule_by_ident(&rec_path.path[0]).span().unstable()
-          .warning(format!("infinite recursive type automatically replaced by `(^)`: {}\n\
-            Semantic actions along the path are ignored.", rec_path.display()))
-          .emit();
-      }
+    for rec_path in self.surface.rec_paths.clone().path_set {
+      self.surface.grammar.find_rule_by_ident(&rec_path.path[0]).span().unstable()
+        .warning(format!("infinite recursive type automatically replaced by `(^)`: {}\n\
+          Semantic actions along the path are ignored.", rec_path.display()))
+        .emit();
     }
   }
 
@@ -211,6 +199,9 @@ impl Visitor<()> for Depth
   }
 
   fn visit_range_expr(&mut self, _this: usize, child: usize) {
+    if !self.under_unit {
+      self.surface_expr(child);
+    }
     self.visit_expr_switch_ascription(child, None);
   }
 
diff --git a/src/liboak/middle/typing/surface.rs b/src/liboak/middle/typing/surface.rs
index 8258d0b..8d7c742 100644
--- a/src/liboak/middle/typing/surface.rs
+++ b/src/liboak/middle/typing/surface.rs
@@ -14,7 +14,7 @@
 
 //! This typing step infers a type for all rules (`surface`) or an expression (`visit_rule`), although it might not be the final type.
 //! It is used in `Depth`.
-//! This typing step does not go under type ascription or semantic action.
+//! This typing step does not go under type ascription, semantic action or range.
 
 use middle::typing::ast::*;
 use middle::typing::ast::IType::*;
@@ -25,9 +25,10 @@ pub struct Surface
 {
   pub grammar: IGrammar,
   pub error: bool,
-  /// Recursive paths found so far, including those already reduced at their entry point.
+  /// Paths of the infinite recursive types, all the rules involved have been reduced to `(^)`.
   pub rec_paths: RecSet,
-  recursion_path: Vec<Ident>
+  /// Mutually recursive rules being typed, empty if the current rule is not recursive.
+  component: Vec<Ident>
 }
 
 impl Surface
@@ -37,7 +38,7 @@ impl Surface
       grammar: grammar,
       error: false,
       rec_paths: RecSet::empty(),
-      recursion_path: vec![]
+      component: vec![]
     }
   }
 
@@ -55,28 +56,158 @@ impl Surface
   fn visit_rule(&mut self, rule_name: &Ident) -> IType {
     let expr_idx = self.grammar.expr_index_of_rule(rule_name);
     let rule_ty = self.grammar.type_of(expr_idx);
-    if rule_ty == Infer {
-      if self.is_rec(rule_name) {
-        self.infer_rec_type(rule_name)
+    if rule_ty != Infer {
+      rule_ty
+    }
+    else if self.component.contains(rule_name) {
+      IType::rec(RecKind::Unit, self.cycle_of(rule_name))
+    }
+    else {
+      let component = self.component_of(rule_name);
+      let outer_component = ::std::mem::replace(&mut self.component, component);
+      if self.component.is_empty() {
+        self.visit_expr(expr_idx);
       }
       else {
-        self.recursion_path.push(rule_name.clone());
-        let ty = self.visit_expr(expr_idx);
-        self.recursion_path.pop();
-        if let Rec(ref r) = ty {
-          self.rec_paths = self.rec_paths.clone().union(r.clone());
-        }
-        let reduced_ty = TypeRewriting::reduce_rec_entry_point(&self.grammar, rule_name, ty);
-        self.type_expr(expr_idx, reduced_ty)
+        self.visit_component();
+      }
+      self.component = outer_component;
+      self.type_of(expr_idx)
+    }
+  }
+
+  /// Types the rules of `self.component` all together, the result does not depend on the rule we started from:
+  ///   1. Every rule is first typed with the type of the rules of the component unknown (`Rec`).
+  ///   2. If one of them contains itself (`RecKind::Poly`), the rules of the component are reduced to `(^)`.
+  ///   3. Otherwise, they all have the type of the branches that are not recursive. This hypothesis is then verified.
+  fn visit_component(&mut self) {
+    let exprs: Vec<_> = self.component.iter()
+      .map(|rule| self.grammar.expr_index_of_rule(rule))
+      .collect();
+    let mut tys = vec![];
+    for expr_idx in exprs.clone() {
+      tys.push(self.visit_expr(expr_idx));
+      self.type_expr(expr_idx, Infer);
+    }
+    let infinite = tys.iter().any(|ty| match ty {
+      &Rec(ref r) => r.is_polymorphic(),
+      _ => false
+    });
+    if self.error || infinite {
+      for rule in self.component.clone() {
+        let path = RecPath::new(RecKind::Poly, self.cycle_of(&rule));
+        self.rec_paths.add_cycle(path);
+      }
+      for expr_idx in exprs {
+        self.type_expr(expr_idx, Invisible);
       }
     }
     else {
-      rule_ty
+      let hypothesis = TypeRewriting::reduce_component(&self.grammar, tys.clone());
+      for (&expr_idx, ty) in exprs.iter().zip(tys) {
+        let ty = match ty {
+          Rec(_) | External => hypothesis.clone(),
+          _ if hypothesis.is_unit_kind() => hypothesis.clone(),
+          ty => ty
+        };
+        self.type_expr(expr_idx, ty);
+      }
+      for expr_idx in exprs {
+        self.verify_rec_rule(expr_idx);
+      }
+    }
+  }
+
+  fn verify_rec_rule(&mut self, expr_idx: usize) {
+    let hypothesis = self.type_of(expr_idx);
+    self.visit_expr_again(expr_idx);
+    let ty = self.type_of(expr_idx);
+    if hypothesis.is_unit_kind() && ty.is_unit_kind() {
+      self.type_expr(expr_idx, hypothesis);
+    }
+    else if !self.error && !ty.syntactic_eq(&self.grammar, &hypothesis) {
+      self.error = true;
+      self.grammar[expr_idx].span().unstable()
+        .error(format!("Type mismatch in a recursive rule: found type `{}` but expected type `{}`.",
+          ty.display(&self.grammar), hypothesis.display(&self.grammar)))
+        .emit();
+    }
+  }
+
+  fn visit_expr_again(&mut self, this: usize) {
+    for child in self.typed_children(this) {
+      self.visit_expr_again(child);
+    }
+    self.type_expr(this, Infer);
+    self.visit_expr(this);
+  }
+
+  /// Sub-expressions involved in the type of the expression `this`.
+  fn typed_children(&self, this: usize) -> Vec<usize> {
+    match self.expr_by_index(this) {
+      Sequence(children)
+    | Choice(children) => children,
+      ZeroOrMore(child)
+    | OneOrMore(child)
+    | ZeroOrOne(child)
+    | SpannedExpr(child) => vec![child],
+      _ => vec![]
+    }
+  }
+
+  /// Rules involved in the type of `rule`.
+  fn dependencies(&self, rule: &Ident) -> Vec<Ident> {
+    let mut dependencies = vec![];
+    let mut exprs = vec![self.grammar.expr_index_of_rule(rule)];
+    while let Some(this) = exprs.pop() {
+      if let NonTerminalSymbol(callee) = self.expr_by_index(this) {
+        dependencies.push(callee);
+      }
+      exprs.extend(self.typed_children(this).into_iter().rev());
+    }
+    dependencies
+  }
+
+  /// Shortest dependency paths from `rule` to all the rules involved in its type.
+  fn dependency_paths(&self, rule: &Ident) -> Vec<Vec<Ident>> {
+    let mut visited: Vec<Ident> = vec![];
+    let mut paths = vec![vec![rule.clone()]];
+    let mut i = 0;
+    while i < paths.len() {
+      let path = paths[i].clone();
+      for callee in self.dependencies(&path[path.len() - 1]) {
+        if !visited.contains(&callee) {
+          visited.push(callee.clone());
+          let mut longer_path = path.clone();
+          longer_path.push(callee);
+          paths.push(longer_path);
+        }
+      }
+      i += 1;
     }
+    paths.remove(0);
+    paths
+  }
+
+  /// Shortest path from `rule` to itself, `rule` being recursive.
+  fn cycle_of(&self, rule: &Ident) -> Vec<Ident> {
+    let mut cycle = self.dependency_paths(rule).into_iter()
+      .find(|path| path[path.len() - 1] == *rule)
+      .expect("Only recursive rules have a cycle.");
+    cycle.pop();
+    cycle
   }
 
-  fn is_rec(&self, rule: &Ident) -> bool {
-    self.recursion_path.iter().any(|r| r == rule)
+  fn depends_on(&self, rule: &Ident, callee: &Ident) -> bool {
+    self.dependency_paths(rule).iter().any(|path| path[path.len() - 1] == *callee)
+  }
+
+  /// Rules mutually recursive with `rule`.
+  fn component_of(&self, rule: &Ident) -> Vec<Ident> {
+    self.grammar.rules.iter()
+      .map(|r| r.ident())
+      .filter(|r| self.depends_on(rule, r) && self.depends_on(r, rule))
+      .collect()
   }
 
   pub fn type_of(&self, expr_idx: usize) -> IType {
@@ -88,16 +219,6 @@ impl Surface
     ty
   }
 
-  fn infer_rec_type(&mut self, entry_rule: &Ident) -> IType {
-    let rec_path = self.recursion_path.clone();
-    let mut rec_shorter_path = vec![entry_rule.clone()];
-    rec_shorter_path.extend(
-      rec_path.into_iter()
-        .rev()
-        .take_while(|r| r != entry_rule));
-    IType::rec(RecKind::Unit, rec_shorter_path)
-  }
-
   fn type_mismatch_branches(&mut self, rec_set: RecSet, sum_expr: usize, branches: Vec<usize>, tys: Vec<IType>) {
     self.error = true;
     let mut diagnostic = self.grammar[sum_expr].span().unstable().error(
@@ -185,8 +306,7 @@ impl Visitor<IType> for Surface
     IType::Regular(Type::Tuple(vec![self.grammar.span_ty_idx(), child]))
   }
 
-  fn visit_range_expr(&mut self, _this: usize, child: usize) -> IType {
-    self.visit_expr(child);
+  fn visit_range_expr(&mut self, _this: usize, _child: usize) -> IType {
     IType::Regular(Type::Rust(self.grammar.range_type()))
   }
 
diff --git a/src/liboak/middle/typing/type_rewriting.rs b/src/liboak/middle/typing/type_rewriting.rs
index 2181984..3828056 100644
--- a/src/liboak/middle/typing/type_rewriting.rs
+++ b/src/liboak/middle/typing/type_rewriting.rs
@@ -25,29 +25,18 @@ pub struct TypeRewriting;
 
 impl TypeRewriting
 {
-  pub fn reduce_rec_entry_point(grammar: &IGrammar, rule: &Ident, ty: IType) -> IType {
-    match ty {
-      Rec(ref r) if r.entry_point() == *rule => Self::reduce_rec(grammar, ty),
-      ty => ty
-    }
-  }
-
-  pub fn reduce_rec(grammar: &IGrammar, ty: IType) -> IType {
-    match ty {
-      Rec(r) if r.is_polymorphic() => Invisible,
-      Rec(r) => {
-        for rec_path in &r.path_set {
-          for ident in &rec_path.path {
-            let ty = grammar.type_of(grammar.expr_index_of_rule(ident));
-            match ty {
-              Rec(_) => (),
-              ty => return ty
-            }
-          }
-        }
-        Invisible
-      }
-      ty => ty
+  /// Common type of mutually recursive rules, from the types in `tys` which are not recursive.
+  pub fn reduce_component(grammar: &IGrammar, tys: Vec<IType>) -> IType {
+    let tys: Vec<_> = tys.into_iter()
+      .filter(|ty| match ty { &Rec(_) => false, _ => true })
+      .collect();
+    if let Some(ty) = tys.iter().find(|ty| !ty.is_unit_kind() && !ty.syntactic_eq(grammar, &External)) {
+      return ty.clone()
+    }
+    match tys.get(0) {
+      Some(ty) if tys.iter().all(|ty2| ty2.syntactic_eq(grammar, ty)) => ty.clone(),
+      Some(_) if tys.iter().any(|ty| !ty.is_unit_kind()) => External,
+      _ => Invisible
     }
   }
 
-- 
2.43.0


From a33fbe758b303f110efd40aaf02e4fd764d0935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 17/26] fix: do not let the local variables of the generated
 code shadow the functions of the user

---
 src/liboak/back/hygiene.rs | 39 ++++++++++++++++++++++++++++++++++++++
 src/liboak/back/mod.rs     |  3 ++-
 2 files changed, 41 insertions(+), 1 deletion(-)
 create mode 100644 src/liboak/back/hygiene.rs

diff --git a/src/liboak/back/hygiene.rs b/src/liboak/back/hygiene.rs
new file mode 100644
index 0000000..107ae71
--- /dev/null
+++ b/src/liboak/back/hygiene.rs
@@ -0,0 +1,39 @@
+// Copyright 2014 Pierre Talbot (IRCAM)
+
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+
+//     http://www.apache.org/licenses/LICENSE-2.0
+
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//! The local variables of the generated functions must not shadow the items of the user, such as a semantic action named `state`.
+//! The identifiers created by the compiler (and not written by the user) are given the span `mixed_site`: the local variables are then resolved among the generated identifiers only.
+//! Functions, types, fields and methods are still resolved at the call site of the macro.
+
+use proc_macro2::{Group, Span, TokenStream, TokenTree};
+
+pub fn hide_local_variables(tokens: TokenStream) -> TokenStream {
+  let call_site = Span::call_site().unwrap();
+  tokens.into_iter()
+    .map(|tree| match tree {
+      TokenTree::Ident(mut ident) => {
+        if ident.span().unwrap().eq(&call_site) {
+          ident.set_span(Span::mixed_site());
+        }
+        TokenTree::Ident(ident)
+      }
+      TokenTree::Group(group) => {
+        let mut hidden = Group::new(group.delimiter(), hide_local_variables(group.stream()));
+        hidden.set_span(group.span());
+        TokenTree::Group(hidden)
+      }
+      tree => tree
+    })
+    .collect()
+}
diff --git a/src/liboak/back/mod.rs b/src/liboak/back/mod.rs
index e41cd5e..e471605 100644
--- a/src/liboak/back/mod.rs
+++ b/src/liboak/back/mod.rs
@@ -114,10 +114,11 @@ mod context;
 mod continuation;
 mod name_factory;
 mod compiler;
+mod hygiene;
 
 use middle::typing::ast::*;
 
 pub fn compile(grammar: TGrammar) -> proc_macro2::TokenStream
 {
-  compiler::GrammarCompiler::compile(grammar)
+  hygiene::hide_local_variables(compiler::GrammarCompiler::compile(grammar))
 }
-- 
2.43.0


From d0bfd73dd02396ae6a1fa02c51ac316b3e034968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 18/26] fix: treat a choice between an external and recursive
 types as recursive

---
 src/liboak/middle/typing/ast.rs            | 18 ++++++++++++++----
 src/liboak/middle/typing/type_rewriting.rs |  9 ++++++++-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/liboak/middle/typing/ast.rs b/src/liboak/middle/typing/ast.rs
index 635b940..d42f1e1 100644
--- a/src/liboak/middle/typing/ast.rs
+++ b/src/liboak/middle/typing/ast.rs
@@ -215,19 +215,22 @@ impl Eq for RecPath {}
 #[derive(Clone, PartialEq, Eq, Debug)]
 pub struct RecSet
 {
-  pub path_set: Vec<RecPath>
+  pub path_set: Vec<RecPath>,
+  /// An external type is in choice with the recursive paths, it is the type of the choice unless we find another one.
+  pub external: bool
 }
 
 impl RecSet
 {
   pub fn new(path: RecPath) -> Self {
      RecSet {
-      path_set: vec![path]
+      path_set: vec![path],
+      external: false
     }
   }
 
   pub fn empty() -> Self {
-    RecSet{ path_set: vec![] }
+    RecSet{ path_set: vec![], external: false }
   }
 
   pub fn is_empty(&self) -> bool {
@@ -240,6 +243,12 @@ impl RecSet
         self.path_set.push(path);
       }
     }
+    self.external |= other.external;
+    self
+  }
+
+  pub fn with_external(mut self) -> Self {
+    self.external = true;
     self
   }
 
@@ -253,7 +262,8 @@ impl RecSet
     RecSet {
       path_set: self.path_set.into_iter()
         .map(|path| path.to_polymorphic_path())
-        .collect()
+        .collect(),
+      external: self.external
     }
   }
 
diff --git a/src/liboak/middle/typing/type_rewriting.rs b/src/liboak/middle/typing/type_rewriting.rs
index 3828056..0a1ed53 100644
--- a/src/liboak/middle/typing/type_rewriting.rs
+++ b/src/liboak/middle/typing/type_rewriting.rs
@@ -28,7 +28,10 @@ impl TypeRewriting
   /// Common type of mutually recursive rules, from the types in `tys` which are not recursive.
   pub fn reduce_component(grammar: &IGrammar, tys: Vec<IType>) -> IType {
     let tys: Vec<_> = tys.into_iter()
-      .filter(|ty| match ty { &Rec(_) => false, _ => true })
+      .filter_map(|ty| match ty {
+        Rec(r) => if r.external { Some(External) } else { None },
+        ty => Some(ty)
+      })
       .collect();
     if let Some(ty) = tys.iter().find(|ty| !ty.is_unit_kind() && !ty.syntactic_eq(grammar, &External)) {
       return ty.clone()
@@ -174,6 +177,10 @@ impl TypeRewriting
     if rec_set.is_polymorphic() {
       return Err(rec_set)
     }
+    // The external type might be unified later with the type of the recursive rules.
+    else if !rec_set.is_empty() && non_rec_tys.len() == 1 && non_rec_tys[0] == External {
+      return Ok(Rec(rec_set.with_external()))
+    }
     else if non_rec_tys.len() == 1 {
       return Ok(non_rec_tys[0].clone())
     }
-- 
2.43.0


From 5b518cc939f9c3f5c1db36d2f7ac99633f03a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 19/26] fix: turn the generic arguments of an external rule
 into the ones of an expression

---
 src/liboak/back/name_factory.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/liboak/back/name_factory.rs b/src/liboak/back/name_factory.rs
index 8f20f33..9c9cfe9 100644
--- a/src/liboak/back/name_factory.rs
+++ b/src/liboak/back/name_factory.rs
@@ -19,6 +19,12 @@ fn modify_path(mut path: syn::Path, prefix: &str) -> syn::Path {
   let segment = path.segments.last_mut().expect("rule path");
   let x = format_ident!("{}_{}", prefix, segment.ident);
   segment.ident = x;
+  // The path becomes an expression, in which the generic arguments must be preceded by `::`.
+  for segment in path.segments.iter_mut() {
+    if let syn::PathArguments::AngleBracketed(ref mut arguments) = segment.arguments {
+      arguments.colon2_token.get_or_insert_with(Default::default);
+    }
+  }
   path
 }
 
-- 
2.43.0


From 2b6b00d2ece6b02184dad58c84d0e390632e5dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 20/26] fix: give the type of the choice to its branches of
 external type

---
 src/liboak/back/compiler/semantic_action.rs | 16 ++++++++++++----
 src/liboak/middle/typing/depth.rs           | 15 ++++++++++++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/liboak/back/compiler/semantic_action.rs b/src/liboak/back/compiler/semantic_action.rs
index b8d9fce..9cc1ab0 100644
--- a/src/liboak/back/compiler/semantic_action.rs
+++ b/src/liboak/back/compiler/semantic_action.rs
@@ -13,19 +13,21 @@
 // limitations under the License.
 
 use back::compiler::*;
+use back::compiler::value::*;
 
 pub struct SemanticActionCompiler
 {
   expr_idx: usize,
   boxed: bool,
-  action: syn::Expr
+  action: syn::Expr,
+  this_idx: usize
 }
 
 impl SemanticActionCompiler
 {
-  pub fn parser(expr_idx: usize, boxed: bool, action: syn::Expr, _this_idx: usize) -> SemanticActionCompiler {
+  pub fn parser(expr_idx: usize, boxed: bool, action: syn::Expr, this_idx: usize) -> SemanticActionCompiler {
     SemanticActionCompiler {
-      expr_idx, boxed, action
+      expr_idx, boxed, action, this_idx
     }
   }
 }
@@ -35,7 +37,13 @@ impl CompileExpr for SemanticActionCompiler
   fn compile_expr<'a>(&self, context: &mut Context<'a>,
     continuation: Continuation) -> syn::Expr
   {
-    let result = context.next_free_var();
+    let cardinality = context.expr_cardinality(self.this_idx);
+    let mut results: Vec<_> = (0..cardinality)
+      .map(|_| context.next_free_var())
+      .collect();
+    // Due to the reverse compilation scheme, see `NonTerminalParserCompiler`.
+    results.reverse();
+    let result = tuple_pattern(results);
     // The success continuation is part of the code generated under the action, thus the variables occurring in it stay free.
     let args: Vec<syn::Expr> = context.push_free_variables(self.expr_idx).into_iter()
       .map(|var| parse_quote!(#var))
diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index 1cd9671..9c246d3 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -163,7 +163,20 @@ impl Visitor<()> for Depth
   }
 
   // Depth rules
-  unit_visitor_impl!(choice);
+
+  // A branch of an external type has the tuple type of the choice.
+  fn visit_choice(&mut self, this: usize, children: Vec<usize>) {
+    let ty = self.type_of(this);
+    let is_tuple = match ty { Regular(Type::Tuple(_)) => true, _ => false };
+    for child in children {
+      if is_tuple && self.type_of(child) == External {
+        self.visit_expr_switch_ascription(child, Some(ty.clone()));
+      }
+      else {
+        self.visit_expr(child);
+      }
+    }
+  }
 
   // If we are under a type ascription, then a single element of the sequence must take that type, all others must be unit.
   fn visit_sequence(&mut self, _this: usize, children: Vec<usize>) {
-- 
2.43.0


From 0bb004681d746bcd4498578ccf8e28e7d509b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 21/26] fix: do not panic on the tokens of a grammar coming
 from different files

---
 src/liboak/front/parser.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/liboak/front/parser.rs b/src/liboak/front/parser.rs
index 4af9d6f..3ff4d54 100644
--- a/src/liboak/front/parser.rs
+++ b/src/liboak/front/parser.rs
@@ -21,6 +21,11 @@ use syn::parse::{Parse, ParseStream};
 use front::ast::*;
 use front::ast::Expression::*;
 
+/// The tokens of a grammar might come from different files (through a macro), in which case their spans cannot be joined.
+fn join_spans(lo: Span, hi: Span) -> Span {
+  lo.join(hi).unwrap_or(lo)
+}
+
 impl Parse for FGrammar {
   fn parse(ps: ParseStream) -> Result<Self> {
     let mut grammar = FGrammar::new(ps.span());
@@ -100,7 +105,7 @@ impl FGrammar {
       } else {
         let lo = self.span_of(choices[0]);
         let hi = self.span_of(choices[choices.len() - 1]);
-        self.alloc_expr(lo.join(hi).unwrap(), Choice(choices))
+        self.alloc_expr(join_spans(lo, hi), Choice(choices))
       };
     Ok(res)
   }
@@ -206,7 +211,7 @@ impl FGrammar {
       return Ok(seq[0]);
     }
     let hi = self.span_of(seq[seq.len() - 1]);
-    Ok(self.alloc_expr(lo.join(hi).unwrap(), Sequence(seq)))
+    Ok(self.alloc_expr(join_spans(lo, hi), Sequence(seq)))
   }
 
   fn parse_typed_expr(&mut self, ps: ParseStream, rule_name: &str) -> Result<Option<usize>> {
@@ -244,7 +249,7 @@ impl FGrammar {
   {
     match self.parse_suffixed_expr(ps, rule_name)? {
       Some(expr) => {
-        let span = lo.join(self.span_of(expr)).unwrap();
+        let span = join_spans(lo, self.span_of(expr));
         Ok(self.alloc_expr(span, make_prefix(expr)))
       }
       None => {
@@ -264,7 +269,7 @@ impl FGrammar {
       Some(expr) => expr,
       None => return Ok(None),
     };
-    let span = lo.join(ps.span()).unwrap();
+    let span = join_spans(lo, ps.span());
     let res =
       if ps.peek(Token![*]) {
         let _: Token![*] = ps.parse()?;
-- 
2.43.0


From 204261d8693fb07e24e9d9437f7cf21ef5e65fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:37 +0000
Subject: [PATCH 22/26] fix: do not look for the component of the rules that
 are not recursive

---
 src/liboak/middle/typing/surface.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/liboak/middle/typing/surface.rs b/src/liboak/middle/typing/surface.rs
index 8d7c742..d99cbea 100644
--- a/src/liboak/middle/typing/surface.rs
+++ b/src/liboak/middle/typing/surface.rs
@@ -204,9 +204,15 @@ impl Surface
 
   /// Rules mutually recursive with `rule`.
   fn component_of(&self, rule: &Ident) -> Vec<Ident> {
+    let dependencies: Vec<_> = self.dependency_paths(rule).into_iter()
+      .map(|path| path[path.len() - 1].clone())
+      .collect();
+    if !dependencies.contains(rule) {
+      return vec![];
+    }
     self.grammar.rules.iter()
       .map(|r| r.ident())
-      .filter(|r| self.depends_on(rule, r) && self.depends_on(r, rule))
+      .filter(|r| dependencies.contains(r) && self.depends_on(r, rule))
       .collect()
   }
 
-- 
2.43.0


From 4fa833765b5ea60d997eeef5973495fffc2ce6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:37 +0000
Subject: [PATCH 23/26] fix: do not visit a rule again for each path leading to
 it in the well-formedness analysis

---
 src/liboak/middle/analysis/well_formedness.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/liboak/middle/analysis/well_formedness.rs b/src/liboak/middle/analysis/well_formedness.rs
index b8c99c3..e87ae3a 100644
--- a/src/liboak/middle/analysis/well_formedness.rs
+++ b/src/liboak/middle/analysis/well_formedness.rs
@@ -55,6 +55,8 @@ pub struct WellFormedness<'a>
   grammar: &'a AGrammar,
   recursion_path: Vec<(Ident, bool)>,
   consumed_input: bool,
+  /// Rules already visited from the current entry point, with or without having consumed input since this entry point.
+  visited_rules: HashSet<(Ident, bool)>,
   rules_wfa: HashMap<Ident, WFA>,
   reached_fixpoint: bool,
   well_formed: bool,
@@ -84,6 +86,7 @@ impl<'a> WellFormedness<'a>
       grammar: grammar,
       recursion_path: vec![],
       consumed_input: false,
+      visited_rules: HashSet::new(),
       rules_wfa: grammar.rules.iter()
         .map(|rule| (rule.ident(), WFA::default()))
         .collect(),
@@ -97,6 +100,7 @@ impl<'a> WellFormedness<'a>
     while !self.reached_fixpoint && self.well_formed {
       self.reached_fixpoint = true;
       for rule in self.grammar.rules.iter() {
+        self.visited_rules.clear();
         self.visit_rule(&rule.ident());
         if !self.well_formed { break; }
       }
@@ -109,7 +113,8 @@ impl<'a> WellFormedness<'a>
         self.error_left_recursion(rule);
       }
     }
-    else {
+    // The paths between two rules can be exponentially many, a rule is not visited again for each of them.
+    else if self.visited_rules.insert((rule.clone(), self.consume_input_since_entry_point())) {
       self.push_rule_in_path(rule);
       let wfa = self.visit_rule_expr(rule);
       self.pop_rule_in_path();
@@ -159,6 +164,10 @@ impl<'a> WellFormedness<'a>
     has_consumed
   }
 
+  fn consume_input_since_entry_point(&self) -> bool {
+    self.consumed_input || self.recursion_path.iter().any(|&(_, consumed_input)| consumed_input)
+  }
+
   fn save(&self) -> bool {
     self.consumed_input
   }
-- 
2.43.0


From ea890bb7795b0c024c8cc4233396c936c27a0631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:37 +0000
Subject: [PATCH 24/26] fix: do not visit the branches of a choice twice when
 looking for a chained operator

---
 src/liboak/middle/analysis/useless_chaining.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/liboak/middle/analysis/useless_chaining.rs b/src/liboak/middle/analysis/useless_chaining.rs
index 9acfce1..4216b0a 100644
--- a/src/liboak/middle/analysis/useless_chaining.rs
+++ b/src/liboak/middle/analysis/useless_chaining.rs
@@ -159,19 +159,16 @@ impl<'a> Visitor<(PredicateOrRepeat, bool)> for InnerPredicateOrRepeat<'a> {
   }
 
   fn visit_choice(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
-    let (pred_or_repeat, mut crossed_rule) = self.visit_expr(children[0]);
+    // `&a / &b` is equivalent to `&(a / b)`, but the other operators do not distribute over the choice.
+    let mut crossed_rule = false;
     for child in children {
-      let (pred_or_repeat2, crossed_rule2) = self.visit_expr(child);
-      if pred_or_repeat != pred_or_repeat2 {
+      let (pred_or_repeat, crossed_rule2) = self.visit_expr(child);
+      if pred_or_repeat != PAnd {
         return (PNothing, false)
       }
       crossed_rule |= crossed_rule2;
     }
-    // `&a / &b` is equivalent to `&(a / b)`, but the other operators do not distribute over the choice.
-    match pred_or_repeat {
-      PAnd => (PAnd, crossed_rule),
-      _ => (PNothing, false)
-    }
+    (PAnd, crossed_rule)
   }
 }
 
-- 
2.43.0


From cea56e7c649f5deab436b6f7097d57224a0075e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:56 +0000
Subject: [PATCH 25/26] fix: a raw identifier designates the same rule or
 function as the plain one

---
 src/liboak/middle/analysis/duplicate.rs            |  5 +++--
 src/liboak/middle/analysis/resolve_non_terminal.rs | 12 ++++++++----
 src/liboak/middle/typing/ast.rs                    |  6 +++++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/liboak/middle/analysis/duplicate.rs b/src/liboak/middle/analysis/duplicate.rs
index 9cb5a02..14cc22f 100644
--- a/src/liboak/middle/analysis/duplicate.rs
+++ b/src/liboak/middle/analysis/duplicate.rs
@@ -15,6 +15,7 @@
 
 use middle::analysis::ast::*;
 use partial::Partial::*;
+use syn::ext::IdentExt;
 
 pub fn rule_duplicate(mut grammar: AGrammar, rules: Vec<Rule>) -> Partial<AGrammar>
 {
@@ -72,8 +73,8 @@ impl<Item> DuplicateItem<Item> where
   {
     for item in iter {
       let ident = item.ident();
-      if self.items.iter().any(|&(ref id,_)| *id == ident) {
-        let &(_, ref dup_item) = self.items.iter().find(|&&(ref id,_)| *id == ident).unwrap();
+      if self.items.iter().any(|&(ref id,_)| id.unraw() == ident.unraw()) {
+        let &(_, ref dup_item) = self.items.iter().find(|&&(ref id,_)| id.unraw() == ident.unraw()).unwrap();
         self.duplicate_items(dup_item, item);
         self.has_duplicate = true;
       }
diff --git a/src/liboak/middle/analysis/resolve_non_terminal.rs b/src/liboak/middle/analysis/resolve_non_terminal.rs
index 57e4cd7..650f9a4 100644
--- a/src/liboak/middle/analysis/resolve_non_terminal.rs
+++ b/src/liboak/middle/analysis/resolve_non_terminal.rs
@@ -17,6 +17,7 @@
 
 use middle::analysis::ast::*;
 use partial::Partial::*;
+use syn::ext::IdentExt;
 
 pub struct ResolveNonTerminal
 {
@@ -49,10 +50,13 @@ impl Visitor<()> for ResolveNonTerminal
 
   fn visit_external_non_terminal_symbol(&mut self, this: usize, name: &syn::Path) {
     if let Some(ident) = name.get_ident() {
-      let contains_key = self.grammar.rules.iter()
-        .any(|r| r.ident() == ident.to_string());
-      if contains_key {
-        self.grammar.exprs[this] = Expression::NonTerminalSymbol(ident.clone());
+      // `r` and `r#r` are the same identifier, the call takes the form used in the declaration of the rule.
+      let rule_name = self.grammar.rules.iter()
+        .map(|r| r.ident())
+        .find(|name| name.unraw() == ident.unraw());
+      if let Some(mut name) = rule_name {
+        name.set_span(ident.span());
+        self.grammar.exprs[this] = Expression::NonTerminalSymbol(name);
       }
     }
   }
diff --git a/src/liboak/middle/typing/ast.rs b/src/liboak/middle/typing/ast.rs
index d42f1e1..874228c 100644
--- a/src/liboak/middle/typing/ast.rs
+++ b/src/liboak/middle/typing/ast.rs
@@ -17,6 +17,7 @@
 
 use quote::quote;
 use syn::parse_quote;
+use syn::ext::IdentExt;
 
 pub use ast::*;
 pub use visitor::*;
@@ -65,7 +66,10 @@ impl IGrammar
     match action {
       syn::Expr::Path(expr_path) => {
         if let Some(ident) = expr_path.path.get_ident() {
-          if let Some(fun) = self.rust_functions.get(ident) {
+          let fun = self.rust_functions.iter()
+            .find(|(name, _)| name.unraw() == ident.unraw())
+            .map(|(_, fun)| fun);
+          if let Some(fun) = fun {
             match &fun.sig.output {
               &syn::ReturnType::Default => {
                 Self::error_unit_action_type(span);
-- 
2.43.0


From 5cacc37c64da9759aa4b980accbcbf16e32b2275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:40 +0000
Subject: [PATCH 26/26] fix: designate the options and the lists by their path
 in the generated code

A grammar with an option, a list, a character or a choice did not compile in a module where
`None`, `Some`, `Vec` or `Option` is a name of the user, for instance the variant of an
AST imported by `use self::Ast::*`.
---
 src/liboak/back/compiler/any_single_char.rs | 4 ++--
 src/liboak/back/compiler/character_class.rs | 2 +-
 src/liboak/back/compiler/choice.rs          | 2 +-
 src/liboak/back/compiler/optional.rs        | 6 +++---
 src/liboak/back/compiler/repeat.rs          | 4 ++--
 src/liboak/back/compiler/rtype.rs           | 4 ++--
 src/liboak/back/context.rs                  | 2 +-
 7 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/liboak/back/compiler/any_single_char.rs b/src/liboak/back/compiler/any_single_char.rs
index a9f88dc..e1ddf73 100644
--- a/src/liboak/back/compiler/any_single_char.rs
+++ b/src/liboak/back/compiler/any_single_char.rs
@@ -54,10 +54,10 @@ impl CompileExpr for AnySingleCharCompiler
     continuation
       .map_success(|success, failure| parse_quote!(
         match state.next() {
-          Some(#pattern) => {
+          ::std::option::Option::Some(#pattern) => {
             #success
           }
-          None => {
+          ::std::option::Option::None => {
             state.error("<character>");
             #failure
           }
diff --git a/src/liboak/back/compiler/character_class.rs b/src/liboak/back/compiler/character_class.rs
index eebc3b4..b4a8b0a 100644
--- a/src/liboak/back/compiler/character_class.rs
+++ b/src/liboak/back/compiler/character_class.rs
@@ -86,7 +86,7 @@ impl CompileExpr for CharacterClassCompiler
       .map_success(|success, failure| parse_quote!({
         let #mark = state.mark();
         match state.next() {
-          Some(#var) if #condition => {
+          ::std::option::Option::Some(#var) if #condition => {
             #success
           }
           _ => {
diff --git a/src/liboak/back/compiler/choice.rs b/src/liboak/back/compiler/choice.rs
index 0967a27..ee8fca8 100644
--- a/src/liboak/back/compiler/choice.rs
+++ b/src/liboak/back/compiler/choice.rs
@@ -101,7 +101,7 @@ impl CompileExpr for ChoiceCompiler
     parse_quote!({
       let #mark = state.mark();
       let #branch_failed = &mut true;
-      #(let #shared_vars = &mut Some(#shared_vars);)*
+      #(let #shared_vars = &mut ::std::option::Option::Some(#shared_vars);)*
       let state = #first;
       #choice
     })
diff --git a/src/liboak/back/compiler/optional.rs b/src/liboak/back/compiler/optional.rs
index 9a8f11e..16bc051 100644
--- a/src/liboak/back/compiler/optional.rs
+++ b/src/liboak/back/compiler/optional.rs
@@ -63,7 +63,7 @@ impl OptionalCompiler
 
   fn value_constructor(result_var: Ident, result_value: syn::Expr) -> syn::Expr {
     parse_quote!({
-      *#result_var = Some(#result_value);
+      *#result_var = ::std::option::Option::Some(#result_value);
       state
     })
   }
@@ -71,7 +71,7 @@ impl OptionalCompiler
   fn compile_parser<'a>(&self, context: &mut Context<'a>,
     continuation: Continuation) -> syn::Expr
   {
-    let ty: syn::Type = parse_quote!(Option<_>);
+    let ty: syn::Type = parse_quote!(::std::option::Option<_>);
     let (body, result_var) = context.value_constructor(
       self.expr_idx,
       ty,
@@ -79,7 +79,7 @@ impl OptionalCompiler
     );
     let optional_expr = self.compile(context, continuation, body);
     parse_quote!({
-      let mut #result_var = None;
+      let mut #result_var = ::std::option::Option::None;
       #optional_expr
     })
   }
diff --git a/src/liboak/back/compiler/repeat.rs b/src/liboak/back/compiler/repeat.rs
index 2a9fda4..24dbeb9 100644
--- a/src/liboak/back/compiler/repeat.rs
+++ b/src/liboak/back/compiler/repeat.rs
@@ -110,7 +110,7 @@ impl RepeatCompiler
   fn compile_parser<'a>(&self, context: &mut Context<'a>,
     continuation: Continuation) -> syn::Expr
   {
-    let ty: syn::Type = parse_quote!(Vec<_>);
+    let ty: syn::Type = parse_quote!(::std::vec::Vec<_>);
     let (body, result_var) = context.value_constructor(
       self.expr_idx,
       ty,
@@ -118,7 +118,7 @@ impl RepeatCompiler
     );
     let repeat_expr = self.compile(context, continuation, body);
     parse_quote!({
-      let mut #result_var = vec![];
+      let mut #result_var = ::std::vec::Vec::new();
       #repeat_expr
     })
   }
diff --git a/src/liboak/back/compiler/rtype.rs b/src/liboak/back/compiler/rtype.rs
index 509575c..207c752 100644
--- a/src/liboak/back/compiler/rtype.rs
+++ b/src/liboak/back/compiler/rtype.rs
@@ -62,11 +62,11 @@ impl<'a> TypeCompiler<'a>
 
   fn list_type(&self, expr_idx: usize) -> syn::Type {
     let ty = self.compile_type(expr_idx);
-    parse_quote!(Vec<#ty>)
+    parse_quote!(::std::vec::Vec<#ty>)
   }
 
   fn optional_type(&self, expr_idx: usize) -> syn::Type {
     let ty = self.compile_type(expr_idx);
-    parse_quote!(Option<#ty>)
+    parse_quote!(::std::option::Option<#ty>)
   }
 }
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index cf56365..768c5a1 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -259,7 +259,7 @@ impl<'a> Context<'a>
     let num_shared = self.free_variables.len() - cardinality;
     let shared_vars: Vec<_> = self.free_variables.drain(..num_shared).collect();
     for var in &shared_vars {
-      self.push_mut_ref_fv(var.clone(), parse_quote!(Option<_>));
+      self.push_mut_ref_fv(var.clone(), parse_quote!(::std::option::Option<_>));
     }
     shared_vars
   }
-- 
2.43.0

