PRE = r'''#![allow(warnings)]
use oak::oak;
use oak_runtime::*;
use oak_runtime::parse_state::ParseResult::*;
fn check(ok: bool, what: &str) { if !ok { println!("FAIL: {}", what); std::process::exit(1) } }
'''
L = 'src/liboak/'
C = L + 'back/compiler/'
STEP = r'''
use oak_runtime::stream::*;
thread_local! { static LOG: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]); }
fn log(s: &str) { LOG.with(|l| l.borrow_mut().push(s.to_string())) }
fn logged() -> String { LOG.with(|l| { let r = l.borrow().join(" "); l.borrow_mut().clear(); r }) }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)] pub struct Step<'a>(StrStream<'a>);
impl<'a> Iterator for Step<'a> { type Item = char; fn next(&mut self) -> Option<char> { log("."); self.0.next() } }
impl<'a> HasNext for Step<'a> { fn has_next(&self) -> bool { self.0.has_next() } }
impl<'a> ConsumePrefix<&'static str> for Step<'a> { fn consume_prefix(&mut self, s: &'static str) -> bool { log(s); self.0.consume_prefix(s) } }
fn on(s: &str) -> ParseState<Step, ()> { ParseState::new(Step(s.stream())) }
'''
BUGS = [
dict(id='c31-cfg', property='C31', edits=[(L + 'middle/analysis/duplicate.rs',
'''    if let syn::Item::Fn(fun) = item {
      functions.push(fun);''','''    if let syn::Item::Fn(mut fun) = item {
      // Documentation and hints are of no use in the generated code.
      fun.attrs.retain(|attr| attr.path.is_ident("allow") || attr.path.is_ident("test"));
      functions.push(fun);''')],
needs='a function of the grammar with a cfg attribute', breaks='a function which must not be compiled is', main=PRE + r'''
mod o { pub fn f() -> u32 { 1 } }
mod g { use super::*; use super::o::*; oak! { r = "a"  #[cfg(any())] fn f() -> u32 { 2 }  pub fn h() -> u32 { f() } } }
fn main() { check(g::h() == 1, "cfg"); }
'''),
dict(id='c31-private', property='C31', edits=[(C + 'grammar.rs',
'''    mod_content.extend(self.grammar.rust_functions.values().cloned()
      .map(syn::Item::Fn));''','''    // The functions of a grammar are available wherever its rules are.
    mod_content.extend(self.grammar.rust_functions.values().cloned()
      .map(|mut fun| {
        if let syn::Visibility::Inherited = fun.vis {
          fun.vis = syn::parse_quote!(pub);
        }
        syn::Item::Fn(fun)
      }));''')],
needs='a private function of a grammar with a homonym outside, both imported by glob', breaks='the private function becomes public', main=PRE + r'''
mod o { pub fn f() -> u32 { 1 } }
mod g { use super::oak; use oak_runtime::*; oak! { r = "a"  fn f() -> u32 { 2 } } }
mod u { use super::g::*; use super::o::*; pub fn h() -> u32 { f() } }
fn main() { check(u::h() == 1, "private"); }
'''),
dict(id='c31-macros', property='C31', edits=[(L + 'middle/analysis/duplicate.rs',
'''      grammar.rust_items = others;''','''      // Macros may be called by any item.
      let (mut macros, others): (Vec<_>, Vec<_>) = others.into_iter()
        .partition(|item| match item { syn::Item::Macro(m) => m.ident.is_some(), _ => false });
      macros.extend(others);
      grammar.rust_items = macros;''')],
needs='a macro defined twice in a grammar, called between', breaks='the call sees the second definition', main=PRE + r'''
mod g { use super::*; oak! { macro_rules! m { () => { 1 } } pub const A: u32 = m!(); macro_rules! m { () => { 2 } } pub const B: u32 = m!();  r = "a" } }
fn main() { check(g::A == 1 && g::B == 2, "order"); }
'''),
dict(id='c31-impl-merge', property='C31', edits=[(L + 'middle/mod.rs',
'''  if !stream_redefined {''','''  // An alias which is never public is not part of the interface.
  if stream_redefined {
    grammar.rust_items.retain(|item| match item {
      &syn::Item::Type(ref ty) => ty.ident.to_string() == "Stream" || ty.attrs.is_empty(),
      _ => true
    });
  }
  if !stream_redefined {''')],
needs='a grammar with its own Stream alias and another alias which has an attribute', breaks='the other alias is lost', main=PRE + r'''
mod g { use super::*; oak! { #[allow(dead_code)] pub type A = u32;  pub type Stream<'a> = StrStream<'a>;  r = "a" } }
fn main() { let x: g::A = 1; check(x == 1, "alias"); }
'''.replace('StrStream', 'oak_runtime::str_stream::StrStream')),
dict(id='c32-option', property='C32', edits=[(C + 'optional.rs',
'''    let optional_expr = self.compile(context, continuation, body);''','''    // The value is only built when the expression matches.
    let body = syntactic_predicate::SyntacticPredicateCompiler::recognizer(
        self.expr_idx, syntactic_predicate::Kind::And)
      .compile(context, body, parse_quote!(state.failure()));
    let optional_expr = self.compile(context, continuation, body);''')],
needs='an optional expression which has a value', breaks='it is evaluated twice, and exponentially when nested', main=PRE + STEP + r'''
mod g { use super::*; oak! { pub type Stream<'a> = super::Step<'a>; r = (. "b")? } }
fn main() { check(g::parse_r(on("ab")).is_successful(), "ab"); let l = logged(); check(l == ". b", &l); }
'''),
dict(id='c32-plus', property='C32', edits=[(C + 'repeat.rs',
'''            if #counter < #cardinality_min {
              #failure
            }''','''            if #counter < #cardinality_min {
              state = state.restore_from_failure(#mark.clone());
              state = #body0;
              #failure
            }'''), (C + 'repeat.rs', '''        let cardinality_min = self.cardinality_min;''', '''        let cardinality_min = self.cardinality_min;
        // The error is the one of the first iteration.
        let body0 = context.compile_recognizer_expr(self.expr_idx);''')],
needs='a repetition e+ which does not match once', breaks='its expression is tried again', main=PRE + STEP + r'''
mod g { use super::*; oak! { pub type Stream<'a> = super::Step<'a>; r = "a"+ / "b" } }
fn main() { check(g::recognize_r(on("b")).is_successful(), "b"); let l = logged(); check(l == "a b", &l); }
'''),
dict(id='c32-late-action', property='C32', edits=[(C + 'semantic_action.rs',
'''        parse_quote!({
          let #result = #boxed_action_call;
          #success
        })})''','''        if self.boxed {
          // Memory is only allocated once the rest of the expression is known to match.
          parse_quote!({
            let _next = state.mark().next();
            let #result = #boxed_action_call;
            #success
          })
        } else {
        parse_quote!({
          let #result = #boxed_action_call;
          #success
        }) }})''')],
needs='a boxed action', breaks='the next character is read before the action runs', main=PRE + STEP + r'''
mod g { use super::*; oak! { pub type Stream<'a> = super::Step<'a>; r = ["a"] > box f  fn f(c: char) -> char { super::log("f"); c } } }
fn main() { check(g::parse_r(on("ab")).is_successful(), "ab"); let l = logged(); check(l == ". f", &l); }
'''),
]
