PRE = r'''#![allow(warnings)]
use oak::oak;
use oak_runtime::*;
use oak_runtime::parse_state::ParseResult::*;
fn check(ok: bool, what: &str) { if !ok { println!("FAIL: {}", what); std::process::exit(1) } }
'''
L = 'src/liboak/'
C = L + 'back/compiler/'
M = L + 'middle/'
BUGS = [
dict(id='c01-longest-literal', property='C01', edits=[(L + 'front/parser.rs',
'''      } else {
        let lo = self.span_of(choices[0]);
''','''      } else {
        // Among literals, the longest one must be tried first.
        let lit_len = |exprs: &Vec<Expression>, idx: usize| match exprs[idx] {
          StrLiteral(ref lit) => Some(lit.len()),
          _ => None
        };
        if choices.iter().all(|&idx| lit_len(&self.exprs, idx).is_some()) {
          choices.sort_by_key(|&idx| std::cmp::Reverse(lit_len(&self.exprs, idx)));
        }
        let lo = self.span_of(choices[0]);
''')],
needs='a choice of literals of which a branch is a prefix of a later one', breaks='the longest literal is matched instead of the first one',
main=PRE + r'''
mod g { use super::*; oak! { r = ("a" / "ab") "b" } }
fn main() { check(g::recognize_r("ab".into_state()).is_successful(), "(a / ab) b on ab"); }
'''),
dict(id='c03-optional-empty', property='C03', edits=[(C + 'optional.rs',
'''    continuation: Continuation, body: syn::Expr) -> syn::Expr
  {
    let mark = context.next_mark_name();
    continuation
      .map_success(|success, _|
        parse_quote!({
          let #mark = state.mark();
          state = #body;
          if state.is_failed() {
            state = state.restore_from_failure(#mark);
          }
''','''    continuation: Continuation, body: syn::Expr, result: Option<Ident>) -> syn::Expr
  {
    let mark = context.next_mark_name();
    let on_empty: syn::Expr = match result {
      Some(result) => parse_quote!({ #result = None; }),
      None => parse_quote!(())
    };
    continuation
      .map_success(|success, _|
        parse_quote!({
          let #mark = state.mark();
          state = #body;
          if state.is_failed() {
            state = state.restore_from_failure(#mark);
          }
          // Nothing was matched.
          else if state.mark() == #mark {
            #on_empty
          }
'''), (C + 'optional.rs', '''    self.compile(context, continuation, body)
''','''    self.compile(context, continuation, body, None)
'''), (C + 'optional.rs', '''self.compile(context, continuation, body);
''','''self.compile(context, continuation, body, Some(result_var.clone()));
''')],
needs='an optional expression which matches the empty text', breaks='its value is None although it matched',
main=PRE + r'''
mod g { use super::*; oak! { r = s? "b"   s = ["a"]* } }
fn main() { check(g::parse_r("b".into_state()).unwrap_data() == Some(vec![]), "Some([])"); }
'''),
dict(id='c30-scope-names', property='C30', edits=[(L + 'back/name_factory.rs',
'''    let mut prefix = String::new();
    let mut num_letter = self.prefix_uid;
    while num_letter > 0 {
      let x = num_letter % LETTERS.len();
      num_letter /= LETTERS.len();
      prefix.push(LETTERS[x] as char);
    }
''','''    let mut prefix = String::new();
    let round = self.prefix_uid / LETTERS.len();
    prefix.push(LETTERS[self.prefix_uid % LETTERS.len()] as char);
    if round > 0 {
      prefix.push_str(&round.to_string());
    }
''')],
needs='more than 26 scopes in a rule of which the first one has more than 10 variables', breaks='a variable of a later scope shadows one of the first scope',
main=PRE + r'''
mod g { use super::*; oak! {
  r = a a a a a a a a a a  a a a a a a a a a a  a a a a a a a a a a  a a a a a a a a a a > join
  t = (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f) (.>f)
  a = . > f
  fn f(c: char) -> char { c }
  fn join(a0: char, a1: char, a2: char, a3: char, a4: char, a5: char, a6: char, a7: char, a8: char, a9: char, b0: char, b1: char, b2: char, b3: char, b4: char, b5: char, b6: char, b7: char, b8: char, b9: char, c0: char, c1: char, c2: char, c3: char, c4: char, c5: char, c6: char, c7: char, c8: char, c9: char, d0: char, d1: char, d2: char, d3: char, d4: char, d5: char, d6: char, d7: char, d8: char, d9: char) -> char { b0 }
} }
fn main() {
  let v = g::parse_t("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMN".into_state()).unwrap_data();
  check(v.10 == 'k', "the 11th component");
}
'''),
dict(id='c08-forget', property='C08', edits=[('runtime/src/parse_state.rs',
'''  pub fn restore(self, mark: S) -> ParseState<S, ()> {
    assert!(self.data.is_none(), "Restoring a ParseState with data is not allowed.");
    ParseState {
      farthest_read: self.farthest_read,
      expected: self.expected,
''','''  pub fn restore(self, mark: S) -> ParseState<S, ()> {
    assert!(self.data.is_none(), "Restoring a ParseState with data is not allowed.");
    // Backtracking further than the farthest failure: no item is expected there twice.
    let mut expected = self.expected;
    if expected.len() > 1 && mark == self.farthest_read {
      expected.dedup();
    }
    else if mark < self.farthest_read && expected.len() > 4 {
      expected.truncate(4);
    }
    ParseState {
      farthest_read: self.farthest_read,
      expected: expected,
''')],
needs='more than four terminals expected at the same position, then backtracking', breaks='the expected items after the fourth are forgotten',
main=PRE + r'''
mod g { use super::*; oak! { r = "x" ("a" / "b" / "c" / "d" / "e") / "y" } }
fn main() {
  let s = g::recognize_r("xz".into_state());
  check(s.expected.len() == 5, "5 expected items");
}
'''),
dict(id='c08-literal-loop', property='C08', edits=[(C + 'repeat.rs',
'''    continuation: Continuation) -> syn::Expr
  {
    let body = context.compile_recognizer_expr(self.expr_idx);
    self.compile(context, continuation, body)
  }
''','''    continuation: Continuation) -> syn::Expr
  {
    if self.cardinality_min == 0 {
      if let StrLiteral(lit) = context.expr_by_index(self.expr_idx) {
        return continuation
          .map_success(|success, _| parse_quote!({
            while state.consume_prefix(#lit) {}
            #success
          }))
          .unwrap_success();
      }
    }
    let body = context.compile_recognizer_expr(self.expr_idx);
    self.compile(context, continuation, body)
  }
'''), (L + 'back/context.rs', '''  pub fn expr_cardinality(''','''  pub fn expr_by_index(&self, expr_idx: usize) -> Expression {
    self.grammar.expr_by_index(expr_idx)
  }

  pub fn expr_cardinality(''')],
needs='a repeated literal', breaks='the literal which ended the repetition is not among the expected items',
main=PRE + r'''
mod g { use super::*; oak! { r = "ab"* "c" } }
fn main() {
  let s = g::recognize_r("abx".into_state());
  check(s.expected.contains(&"ab"), "ab is expected");
}
'''),
dict(id='c09-crlf', property='C09', edits=[('runtime/src/str_stream.rs',
'''    let mut line_no = 1usize;
''','''    let mut line_no = 1usize;
    if remaining > 0 && self.raw_data[..remaining].ends_with('\\r') {
      // In the middle of a CRLF.
      remaining -= 1;
    }
''')],
needs='an error between the \\r and the \\n of a line ending', breaks='the column is that of the \\r',
main=PRE + r'''
mod g { use super::*; oak! { r = "a\r" "b" } }
fn main() {
  let s = g::recognize_r("a\r\n".into_state());
  let m = format!("{:?}", s.into_result());
  check(m.contains("1:3:"), &m);
}
'''),
dict(id='c11-unit-action', property='C11', edits=[(C + 'mod.rs',
'''  if grammar[idx].ty == Type::Unit {
    recognizer_compiler(grammar, idx)
  }
''','''  if grammar[idx].ty == Type::Unit {
    match grammar.expr_by_index(idx) {
      TypeAscription(expr_idx, _) => parser_compiler(grammar, expr_idx),
      Sequence(seq) => Box::new(SequenceCompiler::parser(seq)),
      // It might have side-effects.
      SemanticAction(expr_idx, boxed, action) => Box::new(SemanticActionCompiler::side_effect(expr_idx, boxed, action)),
      _ => recognizer_compiler(grammar, idx)
    }
  }
'''), (C + 'semantic_action.rs', '''    SemanticActionCompiler {
      expr_idx, boxed, action
    }
  }
''','''    SemanticActionCompiler {
      expr_idx, boxed, action, discarded: false
    }
  }

  pub fn side_effect(expr_idx: usize, boxed: bool, action: syn::Expr) -> SemanticActionCompiler {
    SemanticActionCompiler {
      expr_idx, boxed, action, discarded: true
    }
  }
'''), (C + 'semantic_action.rs', '''  boxed: bool,
  action: syn::Expr
}
''','''  boxed: bool,
  action: syn::Expr,
  discarded: bool
}
'''), (C + 'semantic_action.rs', '''    let result = context.next_free_var();
''','''    if self.discarded {
      let action = self.action.clone();
      return continuation
        .map_success(|success, _| parse_quote!({
          let _ = #action();
          #success
        }))
        .compile_success(context, recognizer_compiler, self.expr_idx)
        .unwrap_success();
    }
    let result = context.next_free_var();
''')],
needs='an action without arguments in a sequence ascribed with ()', breaks='the action is called although its value is not used',
main=PRE + r'''
use std::cell::Cell;
thread_local!(static N: Cell<usize> = Cell::new(0));
mod g { use super::*; oak! {
  r = (("a" > f) "b"):() .
  fn f() -> u32 { N.with(|n| n.set(n.get() + 1)); 1 }
} }
fn main() {
  check(g::parse_r("abc".into_state()).is_successful(), "match");
  check(N.with(|n| n.get()) == 0, "no call");
}
'''),
dict(id='c12-span-names', property='C12', edits=[(C + 'spanned_expr.rs',
'''    let lo_sp = context.next_mark_name();
    // The''','''    let lo_sp = context.lo_span_name();
    // The'''), (L + 'back/context.rs', '''  pub fn next_counter_name(''','''  pub fn lo_span_name(&self) -> Ident {
    // Unique in the current scope: the number of variables not bound yet.
    quote::format_ident!("lo{}", self.free_variables.len())
  }

  pub fn next_counter_name(''')],
needs='a span at the end of a scope nested in a sequence which is spanned itself, in an optional or repeated part of the same arity', breaks='the lower bound of the inner span is used for the outer span',
main=PRE + r'''
mod g { use super::*; oak! { r = .. "a" (.. "b" (.. ["c"] > f):X > g1):X
  pub type X = Vec<(usize, usize)>;
  fn f(s: Span, c: char) -> X { vec![(s.lo.0 as usize, s.hi.0 as usize)] }
  fn g1(s: Span, mut c: X) -> X { c.push((s.lo.0 as usize, s.hi.0 as usize)); c }
} }
fn main() {
  let (s, x) = g::parse_r("abc".into_state()).unwrap_data();
  check((s.lo.0, s.hi.0) == (0, 3), "outer span");
  check(x == vec![(2, 3), (1, 3)], "inner spans");
}
'''),
dict(id='c18-bom', property='C18', edits=[('runtime/src/str_stream.rs',
'''    StrStream {
      raw_data: raw_data,
      bytes_offset: 0
    }
''','''    StrStream {
      raw_data: raw_data,
      bytes_offset: if raw_data.starts_with('\\u{feff}') { 3 } else { 0 }
    }
''')],
needs='a text which starts with a byte order mark', breaks='the byte order mark is skipped',
main=PRE + r'''
mod g { use super::*; oak! { r = . . } }
fn main() { check(g::recognize_r("\u{feff}a".into_state()).is_successful(), "two characters"); }
'''),
dict(id='c14-extract', property='C14', edits=[('runtime/src/parse_state.rs',
'''    assert!(self.is_successful() && self.data.is_some(),
      "Data''','''    assert!(self.data.is_some(),
      "Data''')],
needs='a state holding data on which `error` was called', breaks='the data of a failed state can be extracted',
main=PRE + r'''
fn main() {
  let s: ParseState<StrStream<'static>, ()> = "a".into_state();
  let mut s = s.success(1u32);
  s.error("x");
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.extract_data().1));
  check(r.is_err(), "extract_data on a failed state panics");
}
'''),
dict(id='c14-failure-data', property='C14', edits=[('runtime/src/parse_state.rs',
'''  pub fn failure<U>(self) -> ParseState<S, U> {
    ParseState {
      farthest_read: self.farthest_read,
      expected: self.expected,
''','''  pub fn failure<U>(self) -> ParseState<S, U> {
    ParseState {
      // A failure without any reason is located at the current position.
      farthest_read: if self.expected.is_empty() { self.current.clone() } else { self.farthest_read },
      expected: self.expected,
''')],
needs='a failure which is not caused by a terminal (a not predicate) after some text was consumed', breaks='the farthest failure is not that of a terminal',
main=PRE + r'''
mod g { use super::*; oak! { r = "a" !"b" } }
fn main() {
  let s = g::recognize_r("ab".into_state());
  check(s.farthest_read.bytes_offset() == 0, "no terminal failed");
}
'''),
dict(id='c16-crlf', property='C16', edits=[('runtime/src/file_map_stream.rs',
'''      for line in src.split_terminator('\\n') {''','''      for line in src.lines() {''')],
needs='a text with CRLF line endings', breaks='the lines registered are shifted by one byte per line',
main=r'''#![allow(warnings)]
use oak_runtime::*;
use oak_runtime::file_map_stream::*;
use syntex_pos::*;
use std::rc::Rc;
use std::cell::RefCell;
fn main() {
  let text = "A\r\nB\r\nC\r\n".to_string();
  let filemap = Rc::new(FileMap { name: "f".into(), abs_path: None, src: Some(Rc::new(text)), start_pos: BytePos(0), end_pos: BytePos(9), lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]) });
  let _ = filemap.stream();
  let l: Vec<u32> = filemap.lines.borrow().iter().map(|p| p.0 - filemap.start_pos.0).collect();
  if l != vec![0, 3, 6] { println!("FAIL {:?}", l); std::process::exit(1) }
}
'''),
dict(id='c20-dup-attr', property='C20', edits=[(M + 'analysis/duplicate.rs',
'''    if let syn::Item::Fn(fun) = item {
      functions.push(fun);
    }
''','''    if let syn::Item::Fn(fun) = item {
      // Only one of the functions with an attribute such as `#[cfg(..)]` is compiled.
      if !fun.attrs.is_empty() {
        functions.retain(|f: &syn::ItemFn| f.sig.ident != fun.sig.ident);
      }
      functions.push(fun);
    }
''')],
needs='two functions with the same name, the second with an attribute (possibly a documentation comment)', breaks='the duplicate function is accepted',
expect='duplicate definition', main=PRE + r'''
mod g { use super::*; oak! { r = "a" > f
  fn f() -> u32 { 1 }
  #[inline]
  fn f() -> u32 { 2 } } }
fn main() {}
'''),
dict(id='c22-one-pass', property='C22', edits=[(M + 'analysis/well_formedness.rs',
'''        self.visit_rule(&rule.ident());
        if !self.well_formed { break; }
''','''        self.reached_fixpoint = true;
        self.visit_rule(&rule.ident());
        if !self.well_formed { break; }
''')],
needs='a recursive rule of which the analysis needs several passes, followed by an unrelated rule', breaks='the acceptance depends on the order of the rules',
expect='Infinite loop', main=PRE + r'''
mod g { use super::*; oak! { s = "a" s* / ""   z = "b" } }
fn main() {}
'''),
dict(id='c23-last-segment', property='C23', edits=[(M + 'analysis/resolve_non_terminal.rs',
'''    if let Some(ident) = name.get_ident() {
''','''    if let Some(ident) = name.segments.last().map(|segment| &segment.ident) {
''')],
needs='an external rule with the name of a local rule', breaks='the local rule is called',
main=PRE + r'''
mod ext { use super::*; oak! { s = "x" } }
mod g { use super::*; oak! { r = super::ext::s:(^) s   s = "y" } }
fn main() { check(g::recognize_r("xy".into_state()).is_successful(), "xy"); }
'''),
dict(id='c24-where', property='C24', edits=[(L + 'back/context.rs',
'''    let where_clause = &generics.where_clause;
''','''    let where_clause: Option<syn::WhereClause> = None;
    let _ = &generics.where_clause;
''')],
needs='a stream alias with a where clause', breaks='the generated functions lack the where clause',
main=PRE + r'''
mod g { use super::*; oak! {
  pub type Stream<'a, T> where T: Clone = Wrap<'a, T>;
  r = "a"
} }
use std::cmp::Ordering;
pub struct Wrap<'a, T: Clone> { s: StrStream<'a>, t: T }
impl<'a, T: Clone> Clone for Wrap<'a, T> { fn clone(&self) -> Self { Wrap { s: self.s.clone(), t: self.t.clone() } } }
impl<'a, T: Clone> PartialEq for Wrap<'a, T> { fn eq(&self, o: &Self) -> bool { self.s == o.s } }
impl<'a, T: Clone> Eq for Wrap<'a, T> {}
impl<'a, T: Clone> PartialOrd for Wrap<'a, T> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { PartialOrd::partial_cmp(&self.s, &o.s) } }
impl<'a, T: Clone> Ord for Wrap<'a, T> { fn cmp(&self, o: &Self) -> Ordering { Ord::cmp(&self.s, &o.s) } }
impl<'a, T: Clone> HasNext for Wrap<'a, T> { fn has_next(&self) -> bool { self.s.has_next() } }
impl<'a, T: Clone> Iterator for Wrap<'a, T> { type Item = char; fn next(&mut self) -> Option<char> { self.s.next() } }
impl<'a, T: Clone> ConsumePrefix<&'static str> for Wrap<'a, T> { fn consume_prefix(&mut self, p: &'static str) -> bool { self.s.consume_prefix(p) } }
fn main() {
  let w = Wrap { s: "a".stream(), t: 1u32 };
  check(g::recognize_r(ParseState::new(w)).is_successful(), "a");
}
'''),
dict(id='c25-tuple-len', property='C25', edits=[(M + 'typing/ast.rs',
'''        if exprs1.len() == exprs2.len() {
''','''        if exprs1.len() <= exprs2.len() {
''')],
needs='a choice between tuples of which the first one is a prefix of the second one', breaks='the mismatch is not reported by Oak', expect='Type mismatch between branches', main=PRE + r'''
mod g { use super::*; oak! { r = (["a"] . .) / (. .) } }
fn main() {}
'''),
dict(id='c27-optional-poly', property='C27', edits=[(M + 'typing/type_rewriting.rs',
'''      Invisible => Invisible,
      Rec(r) => Rec(r.to_polymorphic_path()),
''','''      Invisible => Invisible,
      Rec(r) => match ty {
        // The recursion ends when the option is absent.
        Regular(Optional(_)) => Rec(r),
        _ => Rec(r.to_polymorphic_path())
      },
''')],
needs='a recursive rule through an optional', breaks='the recursive type is not reported', expect='Type mismatch between branches', main=PRE + r'''
mod g { use super::*; oak! { r = "a" r? / ["b"] } }
fn main() {}
'''),
dict(id='c06-seq-restore', property='C06', edits=[(M + 'analysis/well_formedness.rs',
'''    self.restore(savepoint);
    wfa
  }
''','''    // The savepoint is only useful if nothing is consumed.
    if !wfa.always_consume {
      self.restore(savepoint);
    }
    wfa
  }
''')],
needs='a left recursion behind an optional or predicate over a sequence which consumes', breaks='the left recursion is accepted and the parser overflows the stack', expect='Left-recursion', main=PRE + r'''
mod g { use super::*; oak! { r = ("a" "b")? r "c" / "d" } }
fn main() {}
'''),
dict(id='c07-optional-pred', property='C07', edits=[(M + 'analysis/well_formedness.rs',
'''  fn visit_optional(&mut self, _this: usize, child: usize) -> WFA {
    let child_wfa = self.visit_expr(child);
    WFA::always_succeed(child_wfa.never_consume)
''','''  fn visit_optional(&mut self, _this: usize, child: usize) -> WFA {
    self.visit_expr(child);
    WFA::always_succeed(false)
''')],
needs='an optional predicate', breaks='an expression that always succeeds without consuming is accepted', expect='always succeed without consuming', main=PRE + r'''
mod g { use super::*; oak! { r = (&"a")? "b" } }
fn main() {}
'''),
dict(id='c04-list-unit', property='C04', edits=[(M + 'typing/type_rewriting.rs',
'''      Invisible => Invisible,
      Rec(r) => Rec(r.to_polymorphic_path()),
''','''      Invisible => Invisible,
      // The elements have no value.
      Regular(Unit) if ty == Regular(List(expr_idx)) => Invisible,
      Rec(r) => Rec(r.to_polymorphic_path()),
''')],
needs='a repetition of an expression of type ()', breaks='its type is (^) instead of Vec<()>',
main=PRE + r'''
mod g { use super::*; oak! { r = (["a"]:())* } }
fn main() { let v: Vec<()> = g::parse_r("aa".into_state()).unwrap_data(); check(v.len() == 2, "2"); }
'''),
dict(id='c05-variant-path', property='C05', edits=[(C + 'semantic_action.rs',
'''          if let Some(x) = expr_path.path.segments.last() {''','''          if let Some(x) = expr_path.path.segments.first() {''')],
needs='an action without argument given by a path of several segments', breaks='a unit variant is called or an associated function is not',
main=PRE + r'''
pub mod ast { #[derive(Debug, PartialEq)] pub enum E { Nil, One(char) } }
mod g { use super::*; use super::ast; oak! { r:(ast::E) = "a" > mk   s: (ast::E) = "b" > ast::E::Nil
  fn mk() -> ast::E { ast::E::Nil } } }
fn main() { check(g::parse_s("b".into_state()).unwrap_data() == ast::E::Nil, "nil"); }
'''),
dict(id='c05-assoc-fn', property='C10', edits=[(C + 'semantic_action.rs',
'''          if let Some(x) = expr_path.path.segments.last() {
            x.ident.to_string().chars().next().expect("non empty identifier").is_uppercase() &&
''','''          if let Some(x) = expr_path.path.segments.iter().rev().take(2).last() {
            x.ident.to_string().chars().next().expect("non empty identifier").is_uppercase() &&
''')],
needs='an associated function without argument as action', breaks='the function is not called',
main=PRE + r'''
#[derive(Debug, PartialEq)] pub struct E(u32);
impl E { pub fn new() -> E { E(3) } }
mod g { use super::*; oak! { r: E = "a" > E::new } }
fn main() { check(g::parse_r("a".into_state()).unwrap_data() == E(3), "E(3)"); }
'''),
]
