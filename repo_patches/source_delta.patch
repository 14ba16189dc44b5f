From 4b9228ec70f60a388b157bd184f7029d03883a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 01/20] fix: compile the success continuation of a choice once,
 without closures

Each branch of a choice called the success continuation through a closure
taking the free variables of the rule. The generated code did not type-check
or did not borrow-check for many valid grammars, e.g.
`("a" / "b") "c" / "d"`, `((.. / .) .)?` or `.+ ("x" / "y") .`.
A branch now builds a state with its data, and the continuation is called
once after the last branch.
---
 src/liboak/back/compiler/choice.rs       | 100 ++++++++++++--------
 src/liboak/back/compiler/mod.rs          |   4 +-
 src/liboak/back/compiler/optional.rs     |   2 -
 src/liboak/back/compiler/repeat.rs       |   2 -
 src/liboak/back/compiler/spanned_expr.rs |   3 -
 src/liboak/back/context.rs               | 114 ++---------------------
 src/liboak/back/continuation.rs          |  12 ---
 src/liboak/back/mod.rs                   |  33 +++----
 src/liboak/back/name_factory.rs          |  18 +---
 9 files changed, 88 insertions(+), 200 deletions(-)

diff --git a/src/liboak/back/compiler/choice.rs b/src/liboak/back/compiler/choice.rs
index a45dba0..deaaaf8 100644
--- a/src/liboak/back/compiler/choice.rs
+++ b/src/liboak/back/compiler/choice.rs
@@ -13,82 +13,102 @@
 // limitations under the License.
 
 use back::compiler::*;
+use back::compiler::value::*;
 
 pub struct ChoiceCompiler
 {
+  this_idx: usize,
   choices: Vec<usize>,
-  compiler: ExprCompilerFn
+  compiler_kind: CompilerKind
 }
 
 impl ChoiceCompiler
 {
-  pub fn recognizer(choices: Vec<usize>) -> ChoiceCompiler {
+  pub fn recognizer(choices: Vec<usize>, this_idx: usize) -> ChoiceCompiler {
     ChoiceCompiler {
-      choices: choices,
-      compiler: recognizer_compiler
+      this_idx, choices,
+      compiler_kind: CompilerKind::Recognizer
     }
   }
 
-  pub fn parser(choices: Vec<usize>) -> ChoiceCompiler {
+  pub fn parser(choices: Vec<usize>, this_idx: usize) -> ChoiceCompiler {
     ChoiceCompiler {
-      choices: choices,
-      compiler: parser_compiler
+      this_idx, choices,
+      compiler_kind: CompilerKind::Parser
     }
   }
+
+  // Each branch of the choice builds a state with its own data.
+  fn compile_branch<'a>(&self, context: &mut Context<'a>, idx: usize) -> syn::Expr {
+    match self.compiler_kind {
+      CompilerKind::Recognizer =>
+        context.compile_success(recognizer_compiler, idx,
+          parse_quote!(state.success(())),
+          parse_quote!(state.failure())),
+      CompilerKind::Parser => {
+        let scope = context.open_scope(idx);
+        let value = tuple_value(context.free_variables());
+        let branch = context.compile_success(parser_compiler, idx,
+          parse_quote!(state.success(#value)),
+          parse_quote!(state.failure()));
+        context.close_scope(scope);
+        branch
+      }
+    }
+  }
+
+  // The variables to which the data of the successful branch are bound.
+  fn bind_data<'a>(&self, context: &mut Context<'a>) -> syn::Pat {
+    let cardinality = match self.compiler_kind {
+      CompilerKind::Recognizer => 0,
+      CompilerKind::Parser => context.expr_cardinality(self.this_idx)
+    };
+    let mut vars_names: Vec<_> = (0..cardinality)
+      .map(|_| context.next_free_var())
+      .collect();
+    vars_names.reverse();
+    tuple_pattern(vars_names)
+  }
 }
 
 impl CompileExpr for ChoiceCompiler
 {
   fn compile_expr<'a>(&self,  context: &mut Context<'a>,
-    mut continuation: Continuation) -> syn::Expr
+    continuation: Continuation) -> syn::Expr
   {
-    // Since we copy the success continuation for each branch, to avoid code explosion, we can extract it into a closure shared by all branches under criterion maintained by the context.
-    continuation = context.success_as_closure(continuation);
-
     let mark = context.next_mark_name();
-    let branch_failed = context.next_branch_failed_name();
-    context.push_mut_ref_fv(branch_failed.clone(), parse_quote!(bool));
-
-    // Each branch of the choice must be compiled in the same variable names environment (they share names of the variables they are building) and with a fresh success continuation size (each branch might create independent success continuation).
-    let scope = context.save_scope();
 
-    let mut choices = self.choices.clone();
-    let last = choices.pop().unwrap();
-    let mut branches: Vec<_> = choices.into_iter()
-      .map(|idx| {
-        context.restore_scope(scope.clone());
-        let b = branch_failed.clone();
-        let success: syn::Stmt = parse_quote!(#b = false;);
-        continuation.compile_and_wrap(context, self.compiler, idx, success)
-      })
+    // To avoid code explosion, the success continuation of the choice appears once, after all the branches.
+    let branches: Vec<_> = self.choices.iter()
+      .map(|&idx| self.compile_branch(context, idx))
       .collect();
-
-    // The last branch does not need to assign `false` to the variable `branch_failed`.
-    context.restore_scope(scope.clone());
-    context.pop_mut_ref_fv();
-    let (success, failure) = continuation.unwrap();
-    branches.push(context.compile(self.compiler, last, success, failure));
+    let data = self.bind_data(context);
 
     let mut branches_iter = branches.into_iter();
     let first = branches_iter.next().unwrap();
-
     let choice = branches_iter
-      .rev()
-      .fold(parse_quote!(state), |accu: syn::Expr, branch|
+      .fold(first, |accu: syn::Expr, branch|
         parse_quote!({
-          if #branch_failed {
+          let state = #accu;
+          if state.is_failed() {
             let mut state = state.restore_from_failure(#mark.clone());
-            let state = #branch;
-            #accu
+            #branch
           }
           else { state }
         }));
 
+    let (success, failure) = continuation.unwrap();
     parse_quote!({
       let #mark = state.mark();
-      let mut #branch_failed = true;
-      let state = #first;
-      #choice
+      let state = #choice;
+      if state.is_successful() {
+        let (mut state, #data) = state.extract_data();
+        #success
+      }
+      else {
+        let mut state = state.failure::<()>();
+        #failure
+      }
     })
   }
 }
diff --git a/src/liboak/back/compiler/mod.rs b/src/liboak/back/compiler/mod.rs
index f81f560..a8a4050 100644
--- a/src/liboak/back/compiler/mod.rs
+++ b/src/liboak/back/compiler/mod.rs
@@ -70,7 +70,7 @@ pub fn parser_compiler(grammar: &TGrammar, idx: usize) -> Box<dyn CompileExpr> {
       CharacterClass(classes) => Box::new(CharacterClassCompiler::parser(classes)),
       AnySingleChar => Box::new(AnySingleCharCompiler::parser()),
       Sequence(seq) => Box::new(SequenceCompiler::parser(seq)),
-      Choice(choices) => Box::new(ChoiceCompiler::parser(choices)),
+      Choice(choices) => Box::new(ChoiceCompiler::parser(choices, idx)),
       ZeroOrOne(expr_idx) => Box::new(OptionalCompiler::parser(expr_idx)),
       ZeroOrMore(expr_idx) => Box::new(RepeatCompiler::parser(expr_idx, 0)),
       OneOrMore(expr_idx) => Box::new(RepeatCompiler::parser(expr_idx, 1)),
@@ -93,7 +93,7 @@ pub fn recognizer_compiler(grammar: &TGrammar, idx: usize) -> Box<dyn CompileExp
     CharacterClass(classes) => Box::new(CharacterClassCompiler::recognizer(classes)),
     AnySingleChar => Box::new(AnySingleCharCompiler::recognizer()),
     Sequence(seq) => Box::new(SequenceCompiler::recognizer(seq)),
-    Choice(choices) => Box::new(ChoiceCompiler::recognizer(choices)),
+    Choice(choices) => Box::new(ChoiceCompiler::recognizer(choices, idx)),
     ZeroOrOne(expr_idx) => Box::new(OptionalCompiler::recognizer(expr_idx)),
     ZeroOrMore(expr_idx) => Box::new(RepeatCompiler::recognizer(expr_idx, 0)),
     OneOrMore(expr_idx) => Box::new(RepeatCompiler::recognizer(expr_idx, 1)),
diff --git a/src/liboak/back/compiler/optional.rs b/src/liboak/back/compiler/optional.rs
index 34853c7..e97f023 100644
--- a/src/liboak/back/compiler/optional.rs
+++ b/src/liboak/back/compiler/optional.rs
@@ -71,10 +71,8 @@ impl OptionalCompiler
   fn compile_parser<'a>(&self, context: &mut Context<'a>,
     continuation: Continuation) -> syn::Expr
   {
-    let ty: syn::Type = parse_quote!(Option<_>);
     let (body, result_var) = context.value_constructor(
       self.expr_idx,
-      ty,
       OptionalCompiler::value_constructor
     );
     let optional_expr = self.compile(context, continuation, body);
diff --git a/src/liboak/back/compiler/repeat.rs b/src/liboak/back/compiler/repeat.rs
index 2a9fda4..42e537e 100644
--- a/src/liboak/back/compiler/repeat.rs
+++ b/src/liboak/back/compiler/repeat.rs
@@ -110,10 +110,8 @@ impl RepeatCompiler
   fn compile_parser<'a>(&self, context: &mut Context<'a>,
     continuation: Continuation) -> syn::Expr
   {
-    let ty: syn::Type = parse_quote!(Vec<_>);
     let (body, result_var) = context.value_constructor(
       self.expr_idx,
-      ty,
       RepeatCompiler::value_constructor
     );
     let repeat_expr = self.compile(context, continuation, body);
diff --git a/src/liboak/back/compiler/spanned_expr.rs b/src/liboak/back/compiler/spanned_expr.rs
index 382eacc..5590c20 100644
--- a/src/liboak/back/compiler/spanned_expr.rs
+++ b/src/liboak/back/compiler/spanned_expr.rs
@@ -42,8 +42,6 @@ impl CompileExpr for SpannedExprCompiler
       result_expr = parse_quote!((#result_expr).stream_span());
     }
 
-    context.push_mark(lo_sp.clone());
-
     let spanned_expr = continuation
       .map_success(|success, _| {
         parse_quote!({
@@ -53,7 +51,6 @@ impl CompileExpr for SpannedExprCompiler
       })
       .compile_success(context, parser_compiler, self.expr_idx)
       .unwrap_success();
-    context.pop_mark();
     parse_quote!({
       let #lo_sp = state.mark();
       #spanned_expr
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 170ff1a..a4a3203 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -26,12 +26,8 @@ use syn::parse_quote;
 pub struct Context<'a>
 {
   grammar: &'a TGrammar,
-  closures: Vec<syn::Stmt>,
   name_factory: NameFactory,
-  free_variables: Vec<Ident>,
-  mark_variables: Vec<Ident>,
-  mut_ref_free_variables: Vec<(Ident, syn::Type)>,
-  num_combinators_compiled: usize
+  free_variables: Vec<Ident>
 }
 
 impl<'a> Context<'a>
@@ -40,12 +36,8 @@ impl<'a> Context<'a>
   {
     Context {
       grammar: grammar,
-      closures: vec![],
       name_factory: NameFactory::new(),
-      free_variables: vec![],
-      mark_variables: vec![],
-      mut_ref_free_variables: vec![],
-      num_combinators_compiled: 0
+      free_variables: vec![]
     }
   }
 
@@ -73,12 +65,10 @@ impl<'a> Context<'a>
     let state_param = self.state_param(state_mut);
     let stream_ty = self.grammar.stream_type();
     let generics = self.grammar.stream_generics();
-    let closures = self.closures;
     parse_quote!(
       #[inline]
       pub fn #name #generics (#state_param) -> oak_runtime::ParseState<#stream_ty, #ty>
       {
-        #(#closures)*
         #body
       }
     )
@@ -109,9 +99,7 @@ impl<'a> Context<'a>
   pub fn compile_success(&mut self, compiler: ExprCompilerFn, idx: usize,
     success: syn::Expr, failure: syn::Expr) -> syn::Expr
   {
-    let expr = self.compile(compiler, idx, success, failure);
-    self.num_combinators_compiled += 1;
-    expr
+    self.compile(compiler, idx, success, failure)
   }
 
   pub fn compile_recognizer_expr(&mut self, idx: usize) -> syn::Expr {
@@ -125,13 +113,11 @@ impl<'a> Context<'a>
 
   pub fn value_constructor<F>(&mut self,
     expr_idx: usize,
-    value_ty: syn::Type,
     value_constructor: F) -> (syn::Expr, Ident) where
    F: FnOnce(Ident, syn::Expr) -> syn::Expr,
   {
     let result_var = self.next_free_var();
     let scope = self.open_scope(expr_idx);
-    self.push_mut_ref_fv(result_var.clone(), value_ty);
     let result_value = tuple_value(self.free_variables());
     let body =
       Continuation::new(
@@ -144,57 +130,6 @@ impl<'a> Context<'a>
     (body, result_var)
   }
 
-  pub fn do_not_duplicate_success(&self) -> bool {
-    self.num_combinators_compiled > 0
-  }
-
-  pub fn success_as_closure(&mut self, continuation: Continuation) -> Continuation {
-    if self.do_not_duplicate_success() {
-      self.num_combinators_compiled = 0;
-      let closure_name = self.name_factory.next_closure_name();
-      let args = self.closure_args();
-      let params = self.closure_params();
-      continuation.map_success(|success, _| {
-        self.closures.push(parse_quote!(let #closure_name = |#(#params),*| #success;));
-        parse_quote!(#closure_name(#(#args),*))
-      })
-    }
-    else {
-      continuation
-    }
-  }
-
-  fn closure_params(&self) -> Vec<syn::FnArg> {
-    let stream_ty = self.grammar.stream_type();
-    vec![self.state_param(true)]
-      .into_iter()
-      .chain(self.mut_ref_free_variables
-        .iter().cloned()
-        .map(|(var, ty)| parse_quote!(#var: &mut #ty)))
-      .chain(self.free_variables
-        .iter()
-        .map(|var| parse_quote!(#var:_)))
-      .chain(self.mark_variables
-        .iter()
-        .map(|var| parse_quote!(#var: #stream_ty)))
-      .collect()
-  }
-
-  fn closure_args(&self) -> Vec<syn::Expr> {
-    vec![parse_quote!(state)]
-      .into_iter()
-      .chain(self.mut_ref_free_variables
-        .iter().cloned()
-        .map(|(var, _)| parse_quote!(&mut #var)))
-      .chain(self.free_variables
-        .iter()
-        .map(|var| parse_quote!(#var)))
-      .chain(self.mark_variables
-        .iter()
-        .map(|var| parse_quote!(#var.clone())))
-      .collect()
-  }
-
   pub fn next_mark_name(&mut self) -> Ident {
     self.name_factory.next_mark_name()
   }
@@ -203,10 +138,6 @@ impl<'a> Context<'a>
     self.name_factory.next_counter_name()
   }
 
-  pub fn next_branch_failed_name(&mut self) -> Ident {
-    self.name_factory.next_branch_failed_name()
-  }
-
   pub fn next_free_var(&mut self) -> Ident {
     self.free_variables.pop().expect("Free variables are all bound.")
   }
@@ -217,29 +148,10 @@ impl<'a> Context<'a>
     self.free_variables.remove(len_fv-1-card)
   }
 
-  // Push a mark variable (e.g., `mark1 = state.mark()`) in the set of free variables.
-  // This is useful if a value constructor relies on a mark to be built, e.g. with the spanned operators `..` and `...`.
-  pub fn push_mark(&mut self, mark: Ident) {
-    self.mark_variables.push(mark);
-  }
-
-  pub fn pop_mark(&mut self) {
-    self.mark_variables.pop();
-  }
-
   pub fn free_variables(&self) -> Vec<Ident> {
     self.free_variables.clone()
   }
 
-  pub fn push_mut_ref_fv(&mut self, mut_ref_var: Ident, mut_ref_ty: syn::Type) {
-    self.mut_ref_free_variables.push((mut_ref_var,mut_ref_ty));
-  }
-
-  pub fn pop_mut_ref_fv(&mut self) {
-    self.mut_ref_free_variables.pop()
-      .expect("There is no mut ref free variables.");
-  }
-
   pub fn expr_cardinality(&self, expr_idx: usize) -> usize {
     self.grammar[expr_idx].type_cardinality()
   }
@@ -250,8 +162,6 @@ impl<'a> Context<'a>
 
   pub fn open_scope(&mut self, expr_idx: usize) -> Scope {
     let scope = self.save_scope();
-    self.num_combinators_compiled = 0;
-    self.mut_ref_free_variables = vec![];
     let cardinality = self.expr_cardinality(expr_idx);
     let free_vars = self.name_factory.fresh_vars(cardinality);
     self.free_variables = free_vars;
@@ -265,33 +175,23 @@ impl<'a> Context<'a>
   }
 
   pub fn save_scope(&self) -> Scope {
-    Scope::new(
-      self.num_combinators_compiled,
-      self.free_variables.clone(),
-      self.mut_ref_free_variables.clone()
-    )
+    Scope::new(self.free_variables.clone())
   }
 
   pub fn restore_scope(&mut self, scope: Scope) {
-    self.num_combinators_compiled = scope.num_combinators_compiled;
-    self.mut_ref_free_variables = scope.mut_ref_free_variables;
     self.free_variables = scope.free_variables;
   }
 }
 
 #[derive(Clone)]
 pub struct Scope {
-  num_combinators_compiled: usize,
-  free_variables: Vec<Ident>,
-  mut_ref_free_variables: Vec<(Ident, syn::Type)>
+  free_variables: Vec<Ident>
 }
 
 impl Scope {
-  fn new(n: usize, fv: Vec<Ident>, mfv: Vec<(Ident, syn::Type)>) -> Self {
+  fn new(fv: Vec<Ident>) -> Self {
     Scope {
-      num_combinators_compiled: n,
-      free_variables: fv,
-      mut_ref_free_variables: mfv
+      free_variables: fv
     }
   }
 }
diff --git a/src/liboak/back/continuation.rs b/src/liboak/back/continuation.rs
index 9c5cc52..0c55dc1 100644
--- a/src/liboak/back/continuation.rs
+++ b/src/liboak/back/continuation.rs
@@ -16,8 +16,6 @@ pub use middle::typing::ast::*;
 use back::compiler::ExprCompilerFn;
 use back::context::Context;
 
-use syn::parse_quote;
-
 pub struct Continuation
 {
   success: syn::Expr,
@@ -40,16 +38,6 @@ impl Continuation
       context.compile_success(compiler, idx, success, failure))
   }
 
-  pub fn compile_and_wrap(&self, context: &mut Context,
-    compiler: ExprCompilerFn, idx: usize, before_success: syn::Stmt) -> syn::Expr
-  {
-    let success = self.success.clone();
-    let s: syn::Expr = parse_quote!({#before_success #success});
-    context.compile_success(compiler, idx,
-      s,
-      self.failure.clone())
-  }
-
   pub fn map_success<F>(mut self, f: F) -> Self where
    F: FnOnce(syn::Expr, syn::Expr) -> syn::Expr
   {
diff --git a/src/liboak/back/mod.rs b/src/liboak/back/mod.rs
index 5b7df88..5f5b854 100644
--- a/src/liboak/back/mod.rs
+++ b/src/liboak/back/mod.rs
@@ -74,39 +74,40 @@ A simple compilation would be as follows:
 The problem with this strategy is that the expression `s` is duplicated for each branch of the choice expression.
 Imagine an expression such as `(e1 / e2) (e3 / e4) (e5 / e6) e7`, then you repeat the code for `e7` 8 times (for each branch combination), the code for `(e5 / e6)` 4 times and the one for `(e3 / e4)` 2 times.
 Therefore, it is not very ideal.
-Note that the function `Context::do_not_duplicate_success` allows this behavior if it returns `true`.
 
-The strategy is to encapsulate the success continuation in a closure:
+The strategy is to let each branch build a state with its data, and to call the success continuation once, after the last branch:
 
 ```
   [e1 / e2](s,f) = {
-    let cont = |mut state: ParseState<Stream<'a>, T>, v1: T1, ..., vN: TN| {
-      s
-    };
     let mark1 = state.mark();
-    state = [e1](cont(v1,...,vN),f);
-    if state.is_failed() {
-      state = state.restore_from_failure(mark1);
-      state = [e2](cont(v1,...,vN),f);
+    let state = [e1](state.success((v1,...,vN)), state.failure());
+    let state =
       if state.is_failed() {
-        f
+        let mut state = state.restore_from_failure(mark1);
+        [e2](state.success((v1,...,vN)), state.failure())
       }
-      else { state }
+      else { state };
+    if state.is_successful() {
+      let (mut state, (v1,...,vN)) = state.extract_data();
+      s
+    }
+    else {
+      let mut state = state.failure();
+      f
     }
-    else { state }
   }
 ```
 
-The variables `v1...vN` are those occurring free in the success continuation `s`.
-We must keep the names and types of the variables `v1...vN` somewhere, and this is the purpose of `context.free_variables`.
+The variables `v1...vN` are those bound by the choice expression.
+We must keep the names of the variables that are not bound yet, and this is the purpose of `context.free_variables`.
 
 Another subtlety is the usage of context for free variables.
 For instance, a value of type `(T1, Option<(T2, T3)>)` is given by two variables, let's say `(x, y)`.
 However, to build `y` of type `Option<(T2, T3)>`, we need two more names `w, z`, so we can build `Some((w, z))`.
 Thus, the free variables are only interesting for a given scope, and when building the full expression.
 Scopes are managed by the `context.open_scope` and `context.close_scope` functions.
-We open a new scope when crossing a type such as Option or List, but also for semantic actions.
-When building the value `(T2, T3)`, we only care about `w` and `z`, hence if a continuation function should be build for `e`, we only need to pass `w` and `z` to it, and not `x` and `y`.
+We open a new scope when crossing a type such as Option or List, but also for semantic actions and the branches of a choice.
+When building the value `(T2, T3)`, we only care about `w` and `z`, and not `x` and `y`.
 */
 
 mod context;
diff --git a/src/liboak/back/name_factory.rs b/src/liboak/back/name_factory.rs
index 8f20f33..8a7eeab 100644
--- a/src/liboak/back/name_factory.rs
+++ b/src/liboak/back/name_factory.rs
@@ -42,9 +42,7 @@ pub struct NameFactory
 {
   prefix_uid: usize,
   mark_uid: usize,
-  branch_failed_uid: usize,
-  counter_uid: usize,
-  closure_uid: usize
+  counter_uid: usize
 }
 
 impl NameFactory
@@ -53,9 +51,7 @@ impl NameFactory
     NameFactory {
       prefix_uid: 1,
       mark_uid: 0,
-      branch_failed_uid: 0,
-      counter_uid: 0,
-      closure_uid: 0
+      counter_uid: 0
     }
   }
 
@@ -64,16 +60,6 @@ impl NameFactory
     format_ident!("mark{}", self.mark_uid)
   }
 
-  pub fn next_branch_failed_name(&mut self) -> Ident {
-    self.branch_failed_uid += 1;
-    format_ident!("branch_failed_{}", self.branch_failed_uid)
-  }
-
-  pub fn next_closure_name(&mut self) -> Ident {
-    self.closure_uid += 1;
-    format_ident!("success_continuation_{}", self.closure_uid)
-  }
-
   pub fn next_counter_name(&mut self) -> Ident {
     self.counter_uid += 1;
     format_ident!("counter{}", self.counter_uid)
-- 
2.43.0


From 9f9e1ecfa670488ffa7e5d2ddf2999b4f56eb200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 02/20] fix: count the \r of CRLF line endings in line and
 column computations

`str::lines` strips the `\r` of a `\r\n` terminator, so each preceding CRLF
line shifted the computed position by one byte: errors were reported on a
wrong line and column, and the lines registered in a FileMap started at wrong
positions.
---
 runtime/src/file_map_stream.rs | 2 +-
 runtime/src/str_stream.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/file_map_stream.rs b/runtime/src/file_map_stream.rs
index d14abbe..5768f8b 100644
--- a/runtime/src/file_map_stream.rs
+++ b/runtime/src/file_map_stream.rs
@@ -50,7 +50,7 @@ impl<'a> FileMapStream<'a>
     // Mostly from Rust compiler (codemap.rs).
     if filemap.count_lines() == 0 {
       let mut byte_pos: u32 = filemap.start_pos.0;
-      for line in src.lines() {
+      for line in src.split_terminator('\n') {
         // register the start of this line
         filemap.next_line(BytePos(byte_pos));
         // update byte_pos to include this line and the \n at the end
diff --git a/runtime/src/str_stream.rs b/runtime/src/str_stream.rs
index 2465b37..fbc22ad 100644
--- a/runtime/src/str_stream.rs
+++ b/runtime/src/str_stream.rs
@@ -63,7 +63,7 @@ impl<'a> StrStream<'a>
   pub fn line_column(&self) -> (usize, usize) {
     let mut remaining = self.bytes_offset;
     let mut line_no = 1usize;
-    for line in self.raw_data.lines() {
+    for line in self.raw_data.split('\n') {
       let line_len = line.len() + 1;
       if remaining < line_len {
         break;
-- 
2.43.0


From 731f7eebd8987a85054d5905447c81ae3e55b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 03/20] fix: do not cut a code snippet inside a multi-byte
 character

`StrStream::code_snippet` sliced the input at an arbitrary byte offset, so
printing an error could panic on a non-ASCII input.
---
 runtime/src/str_stream.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/src/str_stream.rs b/runtime/src/str_stream.rs
index fbc22ad..a2f8868 100644
--- a/runtime/src/str_stream.rs
+++ b/runtime/src/str_stream.rs
@@ -140,7 +140,10 @@ impl<'a> CodeSnippet for StrStream<'a>
       String::from("<end-of-file>")
     }
     else {
-      let len = min(total_len - current_offset, len_hint);
+      let mut len = min(total_len - current_offset, len_hint);
+      while !self.raw_data.is_char_boundary(current_offset + len) {
+        len -= 1;
+      }
       String::from(&self.raw_data[current_offset..][..len])
     }
   }
-- 
2.43.0


From d13bfa5d4d22eb5e2b10c14b318f8775e04808bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 04/20] fix: only suggest equivalent rewritings of useless
 chainings

`(e+)*` is `e*` and not `e+`. A sequence was considered as its first
expression, e.g. `&(&"a" "b")` was reported as `&(&e)`. A choice of negations
is not the negation of a choice, and `("a"+ / "b"+)?` is not `("a" / "b")*`.
---
 src/liboak/middle/analysis/useless_chaining.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/liboak/middle/analysis/useless_chaining.rs b/src/liboak/middle/analysis/useless_chaining.rs
index 4e46fdd..62c9a52 100644
--- a/src/liboak/middle/analysis/useless_chaining.rs
+++ b/src/liboak/middle/analysis/useless_chaining.rs
@@ -26,7 +26,7 @@
 //! e?+         Taken care of by WFA.
 //! e?*         Taken care of by WFA.
 //! e+? -> e*
-//! e+* -> e+
+//! e+* -> e*
 //! e++ -> e+
 //! e*? -> e*
 //! e*+         Taken care of by WFA.
@@ -96,7 +96,7 @@ impl <'a> UselessChaining<'a>
       (POptional, POneOrMore, false) => self.warn_useless_chaining(span, "(e+)?", "e*"),
       (POptional, PZeroOrMore, _) => self.warn_useless_chaining(span, "(e*)?", "e*"),
       (POneOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)+", "e+"),
-      (PZeroOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)*", "e+"),
+      (PZeroOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)*", "e*"),
       (PZeroOrMore, PZeroOrMore, _) => self.warn_useless_chaining(span, "(e*)*", "e*"),
       (_, _, _) => false // The rest is either valid or taken care of by WFA.
     }
@@ -153,8 +153,9 @@ impl<'a> Visitor<(PredicateOrRepeat, bool)> for InnerPredicateOrRepeat<'a> {
   }
 
 
-  fn visit_sequence(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
-    self.visit_expr(children[0])
+  // The first expression of a sequence can not be merged with an outer operator, e.g. `&(&e1 e2)` or `(e1+ e2)+`.
+  fn visit_sequence(&mut self, _: usize, _children: Vec<usize>) -> (PredicateOrRepeat, bool) {
+    (PNothing, false)
   }
 
   fn visit_choice(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
@@ -166,7 +167,13 @@ impl<'a> Visitor<(PredicateOrRepeat, bool)> for InnerPredicateOrRepeat<'a> {
       }
       crossed_rule |= crossed_rule2;
     }
-    (pred_or_repeat, crossed_rule)
+    match pred_or_repeat {
+      // `!e1 / !e2` is not equivalent to `!(e1 / e2)`.
+      PNot => (PNothing, false),
+      // `(e1+ / e2+)?` is not equivalent to `(e1 / e2)*`, thus we keep the choice as if it was in another rule.
+      POneOrMore => (POneOrMore, true),
+      _ => (pred_or_repeat, crossed_rule)
+    }
   }
 }
 
-- 
2.43.0


From 1b5c35805acb2da3567158ebc98d0873137cb9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 05/20] fix: type recursive rules independently of the order of
 the rules, warn on direct recursive types

---
 src/liboak/middle/typing/depth.rs          | 17 +----------
 src/liboak/middle/typing/surface.rs        | 33 ++++++++++++++++++++--
 src/liboak/middle/typing/type_rewriting.rs |  7 -----
 3 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index 21dc3a0..f8c0d3d 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -34,7 +34,6 @@ impl Depth
     engine.surface.surface();
     if engine.surface.error { return Partial::Nothing }
     engine.warn_recursive_type();
-    engine.reduce_all_rec();
     engine.depth();
     if engine.surface.error { return Partial::Nothing }
     engine.reduce_all_invisible();
@@ -70,14 +69,6 @@ impl Depth
     }
   }
 
-  fn reduce_all_rec(&mut self) {
-    let tys: Vec<_> = self.surface.grammar.exprs_info.iter().map(|e| e.ty.clone()).collect();
-    let tys: Vec<_> = tys.into_iter().map(|ty| TypeRewriting::reduce_rec(&self.surface.grammar, ty)).collect();
-    for (expr_info, ty) in self.surface.grammar.exprs_info.iter_mut().zip(tys.into_iter()) {
-      expr_info.ty = ty;
-    }
-  }
-
   fn reduce_all_invisible(&mut self) {
     for expr_info in self.surface.grammar.exprs_info.clone() {
       let ty = TypeRewriting::reduce_final(expr_info.ty);
@@ -107,13 +98,7 @@ impl Depth
   }
 
   fn warn_recursive_type(&mut self) {
-    let mut rec_set = RecSet::empty();
-    for rule in &self.surface.grammar.rules {
-      if let Rec(r) = self.type_of(rule.expr_idx) {
-        rec_set = rec_set.union(r);
-      }
-    }
-    rec_set = rec_set.keep_only_polymorphic_paths();
+    let rec_set = self.surface.reduced_recs.clone().keep_only_polymorphic_paths();
     if !rec_set.is_empty() {
       for rec_path in rec_set.path_set {
         self.surface.grammar.find_rule_by_ident(&rec_path.path[0]).span().unstable()
diff --git a/src/liboak/middle/typing/surface.rs b/src/liboak/middle/typing/surface.rs
index 08c0571..69ad753 100644
--- a/src/liboak/middle/typing/surface.rs
+++ b/src/liboak/middle/typing/surface.rs
@@ -25,6 +25,8 @@ pub struct Surface
 {
   pub grammar: IGrammar,
   pub error: bool,
+  /// The recursive types of the rules that have been reduced.
+  pub reduced_recs: RecSet,
   recursion_path: Vec<Ident>
 }
 
@@ -34,6 +36,7 @@ impl Surface
     Surface {
       grammar: grammar,
       error: false,
+      reduced_recs: RecSet::empty(),
       recursion_path: vec![]
     }
   }
@@ -60,8 +63,9 @@ impl Surface
         self.recursion_path.push(rule_name.clone());
         let ty = self.visit_expr(expr_idx);
         self.recursion_path.pop();
-        let reduced_ty = TypeRewriting::reduce_rec_entry_point(&self.grammar, rule_name, ty);
-        self.type_expr(expr_idx, reduced_ty)
+        self.type_expr(expr_idx, ty);
+        self.reduce_closed_recs();
+        self.type_of(expr_idx)
       }
     }
     else {
@@ -69,6 +73,31 @@ impl Surface
     }
   }
 
+  /// Reduces the recursive types of which all the cycles have been entirely visited.
+  /// It must be done before a rule outside of these cycles is typed, otherwise its type would depend on the order of the rules.
+  fn reduce_closed_recs(&mut self) {
+    let is_closed = |ty: &IType| match ty {
+      Rec(r) => r.path_set.iter().all(|p| !self.is_rec(&p.path[0])),
+      _ => false
+    };
+    let mut closed_recs = self.reduced_recs.clone();
+    for rule in &self.grammar.rules {
+      let ty = self.type_of(rule.expr_idx);
+      if is_closed(&ty) {
+        if let Rec(r) = ty { closed_recs = closed_recs.union(r); }
+      }
+    }
+    let tys: Vec<_> = self.grammar.exprs_info.iter()
+      .map(|e|
+        if is_closed(&e.ty) { TypeRewriting::reduce_rec(&self.grammar, e.ty()) }
+        else { e.ty() })
+      .collect();
+    self.reduced_recs = closed_recs;
+    for (expr_info, ty) in self.grammar.exprs_info.iter_mut().zip(tys.into_iter()) {
+      expr_info.ty = ty;
+    }
+  }
+
   fn is_rec(&self, rule: &Ident) -> bool {
     self.recursion_path.iter().any(|r| r == rule)
   }
diff --git a/src/liboak/middle/typing/type_rewriting.rs b/src/liboak/middle/typing/type_rewriting.rs
index 2181984..4b45392 100644
--- a/src/liboak/middle/typing/type_rewriting.rs
+++ b/src/liboak/middle/typing/type_rewriting.rs
@@ -25,13 +25,6 @@ pub struct TypeRewriting;
 
 impl TypeRewriting
 {
-  pub fn reduce_rec_entry_point(grammar: &IGrammar, rule: &Ident, ty: IType) -> IType {
-    match ty {
-      Rec(ref r) if r.entry_point() == *rule => Self::reduce_rec(grammar, ty),
-      ty => ty
-    }
-  }
-
   pub fn reduce_rec(grammar: &IGrammar, ty: IType) -> IType {
     match ty {
       Rec(r) if r.is_polymorphic() => Invisible,
-- 
2.43.0


From e182d41659240c25171ede1646ba2e7972c4f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 06/20] fix: reject a span operator in the middle of a sequence
 instead of reading it as several dots

---
 src/liboak/front/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/liboak/front/parser.rs b/src/liboak/front/parser.rs
index 24df064..8e5b88f 100644
--- a/src/liboak/front/parser.rs
+++ b/src/liboak/front/parser.rs
@@ -322,6 +322,13 @@ impl FGrammar {
         let lit_str: LitStr = ps.parse()?;
         Some(self.alloc_expr(span, StrLiteral(lit_str.value())))
       }
+      // It must be tested before `.` because it starts with this token.
+      else if ps.peek(Token![..]) {
+        return Err(Error::new(span,
+          format!("A span expression `.. e1 e2` must always start a sequence (in rule {}). \
+            You can force this by grouping the spanned expression with parenthesis: `e1 (.. e2)` instead of `e1 .. e2`.",
+            rule_name).as_str()));
+      }
       // Any character `.`
       else if ps.peek(Token![.]) {
         let _: Token![.] = ps.parse()?;
@@ -352,12 +359,6 @@ impl FGrammar {
         let _ = bracketed!(sub_ps in ps);
         Some(self.parse_char_class(&sub_ps, span, rule_name)?)
       }
-      else if ps.peek(Token![..]) {
-        return Err(Error::new(span,
-          format!("A span expression `.. e1 e2` must always start a sequence (in rule {}). \
-            You can force this by grouping the spanned expression with parenthesis: `e1 (.. e2)` instead of `e1 .. e2`.",
-            rule_name).as_str()));
-      }
       else {
         None
       };
-- 
2.43.0


From 405af9e6faec51711b97b6adaa7b471044350459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 07/20] fix: accept an ascription which spells the type
 inferred for an expression

---
 src/liboak/middle/typing/ast.rs   | 14 ++++++++++++++
 src/liboak/middle/typing/depth.rs |  7 +++++++
 2 files changed, 21 insertions(+)

diff --git a/src/liboak/middle/typing/ast.rs b/src/liboak/middle/typing/ast.rs
index 0026c15..ae62f13 100644
--- a/src/liboak/middle/typing/ast.rs
+++ b/src/liboak/middle/typing/ast.rs
@@ -307,6 +307,20 @@ impl IType
     }
   }
 
+  /// `true` if `other` is the Rust type of a type inferred by Oak, as in `.: char` or `["0-9"]+: Vec<char>`.
+  pub fn is_spelled_by(&self, grammar: &IGrammar, other: &IType) -> bool {
+    match (self, other) {
+      (Regular(Atom), Regular(Rust(ty)))
+    | (Regular(Optional(_)), Regular(Rust(ty)))
+    | (Regular(List(_)), Regular(Rust(ty))) => {
+        let ty = match ty { syn::Type::Paren(paren) => &*paren.elem, ty => ty };
+        let spelling = quote!(#ty).to_string().replace(" ", "");
+        self.display(grammar).replace(" ", "") == spelling
+      }
+      _ => false
+    }
+  }
+
   pub fn is_unit_kind(&self) -> bool {
     self == &Invisible || self == &Regular(Unit)
   }
diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index f8c0d3d..6383469 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -157,6 +157,13 @@ impl Visitor<()> for Depth
         if this_ty == External {
           self.surface.type_expr(this, aty);
         }
+        else if this_ty.is_spelled_by(&self.surface.grammar, &aty) {
+          // The ascription only repeats the type inferred, its sub-expressions do not have this type.
+          self.under_ty_ascription = None;
+          walk_expr(self, this);
+          self.under_ty_ascription = Some(aty);
+          return;
+        }
         else {
           self.error_if_not_match_ty_ascription(this, this_ty, aty);
         }
-- 
2.43.0


From f22e202eb6a2902dbc47da77ac9657c08a1e1f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 08/20] fix: check the type of the recursive branches of a
 choice once it is known

---
 src/liboak/middle/typing/surface.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/liboak/middle/typing/surface.rs b/src/liboak/middle/typing/surface.rs
index 69ad753..5aea984 100644
--- a/src/liboak/middle/typing/surface.rs
+++ b/src/liboak/middle/typing/surface.rs
@@ -27,7 +27,9 @@ pub struct Surface
   pub error: bool,
   /// The recursive types of the rules that have been reduced.
   pub reduced_recs: RecSet,
-  recursion_path: Vec<Ident>
+  recursion_path: Vec<Ident>,
+  /// The choices typed with a recursive branch of which the type was not known yet.
+  rec_choices: Vec<(usize, Vec<usize>)>
 }
 
 impl Surface
@@ -37,7 +39,8 @@ impl Surface
       grammar: grammar,
       error: false,
       reduced_recs: RecSet::empty(),
-      recursion_path: vec![]
+      recursion_path: vec![],
+      rec_choices: vec![]
     }
   }
 
@@ -45,6 +48,7 @@ impl Surface
     for rule in self.grammar.rules.clone() {
       self.visit_rule(&rule.ident());
     }
+    self.check_rec_choices();
     if self.grammar.attributes.print_typing.debug() {
       println!("After applying Surface\n.");
       print_debug(&self.grammar);
@@ -98,6 +102,16 @@ impl Surface
     }
   }
 
+  /// Once the recursive branches have a type, it must be the one of the other branches.
+  fn check_rec_choices(&mut self) {
+    for (this, branches) in self.rec_choices.split_off(0) {
+      let tys: Vec<_> = branches.iter().map(|b| self.type_of(*b)).collect();
+      if let Err(rec_set) = TypeRewriting::reduce_sum(&self.grammar, tys.clone()) {
+        self.type_mismatch_branches(rec_set, this, branches, tys);
+      }
+    }
+  }
+
   fn is_rec(&self, rule: &Ident) -> bool {
     self.recursion_path.iter().any(|r| r == rule)
   }
@@ -221,7 +235,12 @@ impl Visitor<IType> for Surface
   fn visit_choice(&mut self, this: usize, children: Vec<usize>) -> IType {
     let tys = walk_exprs(self, children.clone());
     match TypeRewriting::reduce_sum(&self.grammar, tys.clone()) {
-      Ok(principal_type) => principal_type,
+      Ok(principal_type) => {
+        if tys.iter().any(|ty| if let Rec(_) = ty { true } else { false }) {
+          self.rec_choices.push((this, children));
+        }
+        principal_type
+      }
       Err(rec_set) => {
         self.type_mismatch_branches(rec_set, this, children, tys);
         IType::Invisible
-- 
2.43.0


From 593ee1d2de7c572cb4a297ac86118350d7191124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 09/20] fix: do not reject recursive rules of which the other
 branches have the type (^)

---
 src/liboak/middle/typing/type_rewriting.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/liboak/middle/typing/type_rewriting.rs b/src/liboak/middle/typing/type_rewriting.rs
index 4b45392..200b875 100644
--- a/src/liboak/middle/typing/type_rewriting.rs
+++ b/src/liboak/middle/typing/type_rewriting.rs
@@ -155,8 +155,9 @@ impl TypeRewriting
   /// Let `e1:T1 / ... / en:Tn` be the annotated choice with the types in `tys`, then
   ///   1. We divide the types into two groups: recursive T1..Ti-1 (with `Rec`) and non-recursive Ti..Tn.
   ///   2. If two types in the non-recursive set are different (except for External which unifies with other type), return Err.
-  ///   3. If there is a branch with `Rec(Poly)`, return Err.
-  ///   4. Otherwise return Ok(T1)
+  ///   3. If all the non-recursive types are `(^)`, return Rec.
+  ///   4. If there is a branch with `Rec(Poly)`, return Err.
+  ///   5. Otherwise return Ok(T1)
   pub fn reduce_sum(grammar: &IGrammar, tys: Vec<IType>) -> Result<IType, RecSet> {
     assert!(!tys.is_empty(),
       "Only non-empty sum type can be reduced.");
@@ -174,8 +175,12 @@ impl TypeRewriting
         }
       }
     }
+    // Only the recursion can give a type to this sum, it must not be forgotten in case the cycle turns out to be polymorphic.
+    if !rec_set.is_empty() && non_rec_tys.iter().all(|ty| ty == &Invisible) {
+      return Ok(Rec(rec_set))
+    }
     // Contains recursive types that we cannot type.
-    if rec_set.is_polymorphic() {
+    else if rec_set.is_polymorphic() {
       return Err(rec_set)
     }
     else if non_rec_tys.len() == 1 {
@@ -190,12 +195,8 @@ impl TypeRewriting
         return Ok(non_rec_tys[0].clone())
       }
     }
-    // In case of unit recursive paths only.
-    if non_rec_tys.is_empty() {
-      Ok(Rec(rec_set))
-    }
     // If all types are (^) or ().
-    else if non_rec_tys.iter().all(|ty| ty == &Invisible || ty == &Regular(Unit)) {
+    if non_rec_tys.iter().all(|ty| ty == &Invisible || ty == &Regular(Unit)) {
       Ok(Invisible)
     }
     else {
-- 
2.43.0


From 5b7fdd4c8001eb68c2f7acd72b450a47c7e1ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 10/20] fix: do not reject nested ascriptions where no value is
 built

---
 src/liboak/middle/typing/depth.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index 6383469..d9accda 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -194,10 +194,11 @@ impl Visitor<()> for Depth
   }
 
   fn visit_type_ascription(&mut self, this: usize, child: usize, ty: IType) {
-    if let Some(aty) = self.under_ty_ascription.clone() {
-      self.error_if_not_match_ty_ascription(this, ty.clone(), aty);
-    }
+    // The value of this expression is not built if we are under a unit expression.
     if !self.under_unit {
+      if let Some(aty) = self.under_ty_ascription.clone() {
+        self.error_if_not_match_ty_ascription(this, ty.clone(), aty);
+      }
       self.surface_expr(child);
     }
     self.visit_expr_switch_ascription(child, Some(ty));
-- 
2.43.0


From a00d6c150dc25ec61090329d390fed321bab490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 11/20] fix: do not type the argument of an action which is not
 called

---
 src/liboak/middle/typing/depth.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index d9accda..887027b 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -206,7 +206,10 @@ impl Visitor<()> for Depth
 
   // We rely on the Rust compiler to spot type mismatch between semantic action's return type and type ascription.
   fn visit_semantic_action(&mut self, _this: usize, child: usize, _boxed: bool, _action: syn::Expr) {
-    self.surface_expr(child);
+    // The action is not called if we are under a unit expression.
+    if !self.under_unit {
+      self.surface_expr(child);
+    }
     self.visit_expr_switch_ascription(child, None);
   }
 }
-- 
2.43.0


From 583a769c78a34b7ee50bc5e2e06346cb3ae7c936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 12/20] fix: keep the where clause of the stream alias on the
 generated functions

---
 src/liboak/back/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index a4a3203..b476778 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -65,9 +65,10 @@ impl<'a> Context<'a>
     let state_param = self.state_param(state_mut);
     let stream_ty = self.grammar.stream_type();
     let generics = self.grammar.stream_generics();
+    let where_clause = &generics.where_clause;
     parse_quote!(
       #[inline]
-      pub fn #name #generics (#state_param) -> oak_runtime::ParseState<#stream_ty, #ty>
+      pub fn #name #generics (#state_param) -> oak_runtime::ParseState<#stream_ty, #ty> #where_clause
       {
         #body
       }
-- 
2.43.0


From 0d30253ba0f2e15e705c51fedd23848c3aeea950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 13/20] fix: a recursive type which occurs several times in a
 sequence is never given a non-unit type

---
 src/liboak/middle/typing/ast.rs            | 20 ++++++++++++++++++++
 src/liboak/middle/typing/type_rewriting.rs | 14 ++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/liboak/middle/typing/ast.rs b/src/liboak/middle/typing/ast.rs
index ae62f13..0c2e53d 100644
--- a/src/liboak/middle/typing/ast.rs
+++ b/src/liboak/middle/typing/ast.rs
@@ -174,6 +174,7 @@ impl ExprIType
 pub enum RecKind
 {
   Unit, // Only unit types are present on the recursive path.
+  Product, // Several recursive types are present in a tuple on the recursive path, it is only typable if they are unit.
   Poly, // Polymorphic constructors (optional, vec, tuples) are present on the recursive path.
 }
 
@@ -198,6 +199,13 @@ impl RecPath {
     RecPath::new(RecKind::Poly, self.path)
   }
 
+  pub fn to_product_path(self) -> Self {
+    match self.kind {
+      RecKind::Poly => self,
+      _ => RecPath::new(RecKind::Product, self.path)
+    }
+  }
+
   pub fn display(&self) -> String {
     display_path_cycle(&self.path)
   }
@@ -257,6 +265,14 @@ impl RecSet
     }
   }
 
+  pub fn to_product_path(self) -> Self {
+    RecSet {
+      path_set: self.path_set.into_iter()
+        .map(|path| path.to_product_path())
+        .collect()
+    }
+  }
+
   pub fn keep_only_polymorphic_paths(self) -> Self {
     RecSet {
       path_set: self.path_set.into_iter()
@@ -269,6 +285,10 @@ impl RecSet
     self.path_set.iter().any(|p| p.kind == RecKind::Poly)
   }
 
+  pub fn is_product(&self) -> bool {
+    self.path_set.iter().any(|p| p.kind == RecKind::Product)
+  }
+
   pub fn display(&self) -> String {
     let mut paths = String::new();
     for path in &self.path_set {
diff --git a/src/liboak/middle/typing/type_rewriting.rs b/src/liboak/middle/typing/type_rewriting.rs
index 200b875..0b8d596 100644
--- a/src/liboak/middle/typing/type_rewriting.rs
+++ b/src/liboak/middle/typing/type_rewriting.rs
@@ -119,9 +119,13 @@ impl TypeRewriting
   fn tuple_rec(grammar: &IGrammar, indexes: &Vec<usize>) -> Option<IType> {
     let mut rec_set = RecSet::empty();
     let mut is_polymorphic = false;
+    let mut num_recs = 0;
     for idx in indexes {
       match grammar.type_of(*idx) {
-        Rec(r) => rec_set = rec_set.union(r),
+        Rec(r) => {
+          num_recs += 1;
+          rec_set = rec_set.union(r)
+        }
         External => is_polymorphic = true,
         Regular(Unit) => (),
         Regular(_) => is_polymorphic = true,
@@ -135,6 +139,9 @@ impl TypeRewriting
       if is_polymorphic {
         rec_set = rec_set.to_polymorphic_path();
       }
+      else if num_recs > 1 {
+        rec_set = rec_set.to_product_path();
+      }
       Some(Rec(rec_set))
     }
   }
@@ -156,7 +163,7 @@ impl TypeRewriting
   ///   1. We divide the types into two groups: recursive T1..Ti-1 (with `Rec`) and non-recursive Ti..Tn.
   ///   2. If two types in the non-recursive set are different (except for External which unifies with other type), return Err.
   ///   3. If all the non-recursive types are `(^)`, return Rec.
-  ///   4. If there is a branch with `Rec(Poly)`, return Err.
+  ///   4. If there is a branch with `Rec(Poly)`, or with `Rec(Product)` and a type in the non-recursive set is not unit, return Err.
   ///   5. Otherwise return Ok(T1)
   pub fn reduce_sum(grammar: &IGrammar, tys: Vec<IType>) -> Result<IType, RecSet> {
     assert!(!tys.is_empty(),
@@ -183,6 +190,9 @@ impl TypeRewriting
     else if rec_set.is_polymorphic() {
       return Err(rec_set)
     }
+    else if rec_set.is_product() && non_rec_tys.iter().any(|ty| !ty.is_unit_kind()) {
+      return Err(rec_set)
+    }
     else if non_rec_tys.len() == 1 {
       return Ok(non_rec_tys[0].clone())
     }
-- 
2.43.0


From fed3c411d3c77a21ef92d2ad9ddbadfc6f7f3bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 14/20] fix: the ascription of a span or of a range is not
 about the expression it delimits

---
 src/liboak/middle/typing/depth.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index 887027b..c164914 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -193,6 +193,15 @@ impl Visitor<()> for Depth
     }
   }
 
+  // A type ascription on a span or on a range is not about the expression it delimits.
+  fn visit_spanned_expr(&mut self, _this: usize, child: usize) {
+    self.visit_expr_switch_ascription(child, None);
+  }
+
+  fn visit_range_expr(&mut self, _this: usize, child: usize) {
+    self.visit_expr_switch_ascription(child, None);
+  }
+
   fn visit_type_ascription(&mut self, this: usize, child: usize, ty: IType) {
     // The value of this expression is not built if we are under a unit expression.
     if !self.under_unit {
-- 
2.43.0


From ad5f88242a3c3f9d2e2490e0034c9abee5dc4f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 15/20] fix: the variables of the generated code do not shadow
 the functions of the user

---
 src/liboak/back/name_factory.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/liboak/back/name_factory.rs b/src/liboak/back/name_factory.rs
index 8a7eeab..ff091e8 100644
--- a/src/liboak/back/name_factory.rs
+++ b/src/liboak/back/name_factory.rs
@@ -12,7 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use proc_macro2::Ident;
+use proc_macro2::{Ident, Span};
 use quote::format_ident;
 
 fn modify_path(mut path: syn::Path, prefix: &str) -> syn::Path {
@@ -38,6 +38,11 @@ pub fn recognizer_id(id: Ident) -> Ident {
   format_ident!("recognize_{}", id)
 }
 
+/// The variables are hygienic: they do not shadow the functions of the user called in the generated code.
+fn local_var(name: String) -> Ident {
+  Ident::new(&name, Span::mixed_site())
+}
+
 pub struct NameFactory
 {
   prefix_uid: usize,
@@ -57,18 +62,18 @@ impl NameFactory
 
   pub fn next_mark_name(&mut self) -> Ident {
     self.mark_uid += 1;
-    format_ident!("mark{}", self.mark_uid)
+    local_var(format!("mark{}", self.mark_uid))
   }
 
   pub fn next_counter_name(&mut self) -> Ident {
     self.counter_uid += 1;
-    format_ident!("counter{}", self.counter_uid)
+    local_var(format!("counter{}", self.counter_uid))
   }
 
   pub fn fresh_vars(&mut self, cardinality: usize) -> Vec<Ident> {
     let prefix = self.next_var_prefix();
     (0..cardinality)
-      .map(|i| format_ident!("{}{}", prefix, i))
+      .map(|i| local_var(format!("{}{}", prefix, i)))
       .collect()
   }
 
-- 
2.43.0


From c48f639de9664976b3adc5fbade5f610c7fd0f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:34 +0000
Subject: [PATCH 16/20] fix: do not suggest to rewrite a rule which is called
 under a repetition

---
 src/liboak/middle/analysis/useless_chaining.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/liboak/middle/analysis/useless_chaining.rs b/src/liboak/middle/analysis/useless_chaining.rs
index 62c9a52..6cbd7ac 100644
--- a/src/liboak/middle/analysis/useless_chaining.rs
+++ b/src/liboak/middle/analysis/useless_chaining.rs
@@ -96,7 +96,7 @@ impl <'a> UselessChaining<'a>
       (POptional, POneOrMore, false) => self.warn_useless_chaining(span, "(e+)?", "e*"),
       (POptional, PZeroOrMore, _) => self.warn_useless_chaining(span, "(e*)?", "e*"),
       (POneOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)+", "e+"),
-      (PZeroOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)*", "e*"),
+      (PZeroOrMore, POneOrMore, false) => self.warn_useless_chaining(span, "(e+)*", "e*"),
       (PZeroOrMore, PZeroOrMore, _) => self.warn_useless_chaining(span, "(e*)*", "e*"),
       (_, _, _) => false // The rest is either valid or taken care of by WFA.
     }
-- 
2.43.0


From dff8e4187c5297d2fcdacf1416b5f6616a59aa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:55 +0000
Subject: [PATCH 17/20] fix: the well-formedness analysis is exponential in the
 number of rules

---
 src/liboak/middle/analysis/well_formedness.rs | 37 ++++++++-----------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/liboak/middle/analysis/well_formedness.rs b/src/liboak/middle/analysis/well_formedness.rs
index b8c99c3..500af3d 100644
--- a/src/liboak/middle/analysis/well_formedness.rs
+++ b/src/liboak/middle/analysis/well_formedness.rs
@@ -53,7 +53,8 @@ impl Default for WFA {
 pub struct WellFormedness<'a>
 {
   grammar: &'a AGrammar,
-  recursion_path: Vec<(Ident, bool)>,
+  recursion_path: Vec<Ident>, // The rules called without consuming any input.
+  visited_rules: HashSet<Ident>, // The rules already visited in the current step of the fixpoint.
   consumed_input: bool,
   rules_wfa: HashMap<Ident, WFA>,
   reached_fixpoint: bool,
@@ -83,6 +84,7 @@ impl<'a> WellFormedness<'a>
     WellFormedness {
       grammar: grammar,
       recursion_path: vec![],
+      visited_rules: HashSet::new(),
       consumed_input: false,
       rules_wfa: grammar.rules.iter()
         .map(|rule| (rule.ident(), WFA::default()))
@@ -96,6 +98,7 @@ impl<'a> WellFormedness<'a>
   fn visit_rules(&mut self) {
     while !self.reached_fixpoint && self.well_formed {
       self.reached_fixpoint = true;
+      self.visited_rules.clear();
       for rule in self.grammar.rules.iter() {
         self.visit_rule(&rule.ident());
         if !self.well_formed { break; }
@@ -103,13 +106,14 @@ impl<'a> WellFormedness<'a>
     }
   }
 
+  /// Each rule is visited at most once in a step of the fixpoint, otherwise the analysis would be exponential in the number of rules.
+  /// There is no left-recursion through a rule called after some input has been consumed, thus this rule is visited on its own.
   fn visit_rule(&mut self, rule: &Ident) -> WFA {
-    if self.is_rec(rule) {
-      if !self.consume_input_since(rule) && !self.consumed_input {
-        self.error_left_recursion(rule);
-      }
+    if self.consumed_input {}
+    else if self.is_rec(rule) {
+      self.error_left_recursion(rule);
     }
-    else {
+    else if self.visited_rules.insert(rule.clone()) {
       self.push_rule_in_path(rule);
       let wfa = self.visit_rule_expr(rule);
       self.pop_rule_in_path();
@@ -124,13 +128,11 @@ impl<'a> WellFormedness<'a>
   }
 
   fn push_rule_in_path(&mut self, rule: &Ident) {
-    self.recursion_path.push((rule.clone(), self.consumed_input));
-    self.consumed_input = false;
+    self.recursion_path.push(rule.clone());
   }
 
   fn pop_rule_in_path(&mut self) {
-    let (_, old_consumed_input) = self.recursion_path.pop().unwrap();
-    self.consumed_input = old_consumed_input;
+    self.recursion_path.pop();
   }
 
   fn fixpoint_update(&mut self, wfa: WFA, rule: &Ident) {
@@ -141,24 +143,16 @@ impl<'a> WellFormedness<'a>
   }
 
   fn is_rec(&self, rule: &Ident) -> bool {
-    self.recursion_path.iter().any(|&(ref r,_)| r == rule)
+    self.recursion_path.contains(rule)
   }
 
-  fn rec_path_from(&self, rule: &Ident) -> Vec<(Ident, bool)> {
+  fn rec_path_from(&self, rule: &Ident) -> Vec<Ident> {
     self.recursion_path.iter().cloned()
       .rev()
-      .take_while(|&(ref r, _)| r != rule)
+      .take_while(|r| r != rule)
       .collect()
   }
 
-  fn consume_input_since(&self, rule: &Ident) -> bool {
-    let mut has_consumed = false;
-    for (_, consumed_input) in self.rec_path_from(rule) {
-      has_consumed |= consumed_input;
-    }
-    has_consumed
-  }
-
   fn save(&self) -> bool {
     self.consumed_input
   }
@@ -173,7 +167,6 @@ impl<'a> WellFormedness<'a>
     if self.register_error(rule.expr_idx) {
       let mut rec_path: Vec<_> = vec![rule_id.clone()];
       rec_path.extend(self.rec_path_from(rule_id).into_iter()
-        .map(|(r,_)| r)
         .rev());
       rule.span().unstable().error(format!(
         "Left-recursion is not supported in Oak; the following rule cycle \
-- 
2.43.0


From f32077c3a995315a20a367a35ce0126fc1ac8bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:55 +0000
Subject: [PATCH 18/20] fix: the analysis of useless chainings is exponential
 in the number of rules

---
 src/liboak/middle/analysis/useless_chaining.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/liboak/middle/analysis/useless_chaining.rs b/src/liboak/middle/analysis/useless_chaining.rs
index 6cbd7ac..1644bf2 100644
--- a/src/liboak/middle/analysis/useless_chaining.rs
+++ b/src/liboak/middle/analysis/useless_chaining.rs
@@ -36,6 +36,7 @@
 
 #![macro_use]
 use middle::analysis::ast::*;
+use std::collections::HashMap;
 
 use self::PredicateOrRepeat::*;
 
@@ -111,12 +112,13 @@ impl <'a> UselessChaining<'a>
 }
 
 struct InnerPredicateOrRepeat<'a> {
-  grammar: &'a AGrammar
+  grammar: &'a AGrammar,
+  rules: HashMap<Ident, PredicateOrRepeat> // The rules already visited.
 }
 
 impl<'a> InnerPredicateOrRepeat<'a> {
   fn new(grammar: &'a AGrammar) -> Self {
-    InnerPredicateOrRepeat { grammar }
+    InnerPredicateOrRepeat { grammar, rules: HashMap::new() }
   }
 }
 
@@ -128,8 +130,12 @@ impl<'a> ExprByIndex for InnerPredicateOrRepeat<'a> {
 
 impl<'a> Visitor<(PredicateOrRepeat, bool)> for InnerPredicateOrRepeat<'a> {
   fn visit_non_terminal_symbol(&mut self, _this: usize, rule: &Ident) -> (PredicateOrRepeat, bool) {
-    let expr_idx = self.grammar.expr_index_of_rule(rule);
-    (self.visit_expr(expr_idx).0, true)
+    if !self.rules.contains_key(rule) {
+      let expr_idx = self.grammar.expr_index_of_rule(rule);
+      let pred_or_repeat = self.visit_expr(expr_idx).0;
+      self.rules.insert(rule.clone(), pred_or_repeat);
+    }
+    (self.rules[rule], true)
   }
 
   fn visit_optional(&mut self, _this: usize, _child: usize) -> (PredicateOrRepeat, bool) {
@@ -160,7 +166,7 @@ impl<'a> Visitor<(PredicateOrRepeat, bool)> for InnerPredicateOrRepeat<'a> {
 
   fn visit_choice(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
     let (pred_or_repeat, mut crossed_rule) = self.visit_expr(children[0]);
-    for child in children {
+    for &child in &children[1..] {
       let (pred_or_repeat2, crossed_rule2) = self.visit_expr(child);
       if pred_or_repeat != pred_or_repeat2 {
         return (PNothing, false)
-- 
2.43.0


From 84ac36d4ee736381fe4bfaf28a7646b6ea8f3694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:55 +0000
Subject: [PATCH 19/20] fix: the cycle of a recursive type is shown backwards

---
 src/liboak/middle/typing/surface.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/liboak/middle/typing/surface.rs b/src/liboak/middle/typing/surface.rs
index 5aea984..115004f 100644
--- a/src/liboak/middle/typing/surface.rs
+++ b/src/liboak/middle/typing/surface.rs
@@ -126,12 +126,11 @@ impl Surface
   }
 
   fn infer_rec_type(&mut self, entry_rule: &Ident) -> IType {
-    let rec_path = self.recursion_path.clone();
-    let mut rec_shorter_path = vec![entry_rule.clone()];
-    rec_shorter_path.extend(
-      rec_path.into_iter()
-        .rev()
-        .take_while(|r| r != entry_rule));
+    // The cycle starts at `entry_rule`, and is in the order of the calls.
+    let rec_shorter_path = self.recursion_path.iter()
+      .skip_while(|r| *r != entry_rule)
+      .cloned()
+      .collect();
     IType::rec(RecKind::Unit, rec_shorter_path)
   }
 
-- 
2.43.0


From ee46c6c477746d1b6fea4d4f9a76b85cd2fdd9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:28 +0000
Subject: [PATCH 20/20] fix: a path beginning with `::` can follow another
 expression

---
 src/liboak/front/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/liboak/front/parser.rs b/src/liboak/front/parser.rs
index 8e5b88f..f11e4bb 100644
--- a/src/liboak/front/parser.rs
+++ b/src/liboak/front/parser.rs
@@ -123,10 +123,16 @@ impl FGrammar {
     }
   }
 
+  // A single `:`, and not the `::` of a path such as in `"a" ::path::to::rule`.
+  fn peek_ascription(ps: ParseStream) -> bool {
+    let ps2 = ps.fork();
+    ps2.parse::<Token![:]>().is_ok() && (!ps2.peek(Token![:]) || ps2.peek(Token![::]))
+  }
+
   // `:` followed by `()` or `(^)` or a Rust type.
   // For instance: `rule: ast::Expr = r1:(^) "let" r2:u32`.
   fn parse_type(ps: ParseStream) -> Result<(Span, IType)> {
-    if !ps.peek(Token![:]) {
+    if !Self::peek_ascription(ps) {
       Ok((ps.span(), IType::Infer))
     }
     else {
-- 
2.43.0

