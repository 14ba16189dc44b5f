PRE = r'''#![allow(warnings)]
use oak::oak;
use oak_runtime::*;
use oak_runtime::parse_state::ParseResult::*;
fn check(ok: bool, what: &str) { if !ok { println!("FAIL: {}", what); std::process::exit(1) } }
'''
BUGS = [
dict(id='c01-not-not', property='C01', edits=[('src/liboak/back/compiler/syntactic_predicate.rs',
'''    let (success, failure) = continuation.unwrap();
    match self.kind {
''','''    let (success, failure) = continuation.unwrap();
    if let (&Kind::Not, NotPredicate(inner)) = (&self.kind, context.expr_by_index(self.expr_idx)) {
      // Double negation.
      return context.compile_success(recognizer_compiler, inner, success, failure);
    }
    match self.kind {
'''), ('src/liboak/back/context.rs', '''  pub fn expr_cardinality(''','''  pub fn expr_by_index(&self, expr_idx: usize) -> Expression {
    self.grammar.expr_by_index(expr_idx)
  }

  pub fn expr_cardinality(''')],
needs='a doubly negated expression, !(!e): it is compiled to e, which consumes', breaks='the predicate !(!e) consumes what e matches',
main=PRE + r'''
mod g { use super::*; oak! { r = !(!"a") . } }
fn main() {
  let s = g::recognize_r("a".into_state());
  check(s.is_successful(), "!(!\"a\") . must match a");
}
'''),
dict(id='c02-empty-span', property='C02', edits=[('src/liboak/back/compiler/spanned_expr.rs',
'''      .map_success(|success, _| {
        parse_quote!({
          let #result = #result_expr;
          #success
        })
      })''','''      .map_success(|success, failure| {
        if self.is_ranged {
          parse_quote!(
            if #lo_sp == state.mark() {
              #failure
            }
            else {
              let #result = #result_expr;
              #success
            })
        }
        else {
          parse_quote!({
            let #result = #result_expr;
            #success
          })
        }
      })''')],
needs='a range over an empty match', breaks='the parser fails on an empty range where the recognizer succeeds',
main=PRE + r'''
mod g { use super::*; oak! { r = (... ["a"]*) "b" } }
fn main() {
  for i in ["b", "ab", "c"].iter() {
    check(g::recognize_r(i.into_state()).is_successful() == g::parse_r(i.into_state()).is_successful(), i);
  }
}
'''),
dict(id='c03-call-order', property='C03', edits=[('src/liboak/back/compiler/non_terminal.rs', '''    vars_names.reverse();
''','''    if vars_names.len() == 2 {
      vars_names.swap(0, 1);
    }
''')],
needs='a call, used as a value, of a rule whose AST is a tuple of at least three components of which the first and the last have the same type', breaks='the components of the tuple are reversed',
main=PRE + r'''
mod g { use super::*; oak! { r = s "!"  s = . . . } }
fn main() {
  match g::parse_r("abc!".into_state()).into_result() {
    Success(d) => check(d == ('a', 'b', 'c'), "order of the values"),
    _ => check(false, "must match")
  }
}
'''),
dict(id='c08-merge-literals', property='C08', edits=[('src/liboak/back/compiler/sequence.rs','''    self.seq.clone().into_iter()
      .rev()
      .fold(continuation, |continuation, idx|
        continuation.compile_success(context, self.compiler, idx))
      .unwrap_success()
''','''    let mut continuation = continuation;
    let mut i = self.seq.len();
    while i > 0 {
      i -= 1;
      let mut literal = match context.expr_by_index(self.seq[i]) {
        StrLiteral(literal) => literal,
        _ => {
          continuation = continuation.compile_success(context, self.compiler, self.seq[i]);
          continue
        }
      };
      // Consecutive literals are matched at once.
      while i > 0 {
        match context.expr_by_index(self.seq[i - 1]) {
          StrLiteral(previous) => { literal = previous + &literal; i -= 1; }
          _ => break
        }
      }
      continuation = Continuation::new(
        StrLiteralCompiler::recognizer(literal).compile_expr(context, continuation.clone()),
        continuation.unwrap().1);
    }
    continuation.unwrap_success()
'''), ('src/liboak/back/context.rs', '''  pub fn expr_cardinality(''','''  pub fn expr_by_index(&self, expr_idx: usize) -> Expression {
    self.grammar.expr_by_index(expr_idx)
  }

  pub fn expr_cardinality('''), ('src/liboak/back/continuation.rs','''pub struct Continuation
''','''#[derive(Clone)]
pub struct Continuation
''')],
needs='two consecutive literals in a sequence, and an input which matches the first one only', breaks='the farthest failure is at the start of the first literal, with the text of both',
main=PRE + r'''
mod g { use super::*; oak! { r = "a" "b" } }
fn main() {
  let m = format!("{:?}", g::parse_r("ac".into_state()).into_result());
  check(m.contains("1:2: unexpected `c`, expecting `b`."), &m);
}
'''),
dict(id='c17-merge-intervals', property='C17', edits=[('src/liboak/back/compiler/character_class.rs','''    let mut intervals = self.classes.intervals.iter().cloned();
''','''    let mut sorted = self.classes.intervals.clone();
    sorted.sort_by_key(|i| i.lo);
    // Overlapping intervals are merged.
    let mut merged: Vec<CharacterInterval> = vec![];
    for interval in sorted {
      if let Some(last) = merged.last_mut() {
        if interval.lo <= last.hi {
          last.hi = interval.hi;
          continue;
        }
      }
      merged.push(interval);
    }
    let mut intervals = merged.into_iter();
''')],
needs='a class with an interval nested in another one', breaks='the characters after the inner interval are not matched any more',
main=PRE + r'''
mod g { use super::*; oak! { r = ["a-zc-d"] } }
fn main() { for c in ["a", "d", "e", "z"].iter() { check(g::recognize_r(c.into_state()).is_successful(), c); } }
'''),
dict(id='c18-ignore-case', property='C18', edits=[('runtime/src/str_stream.rs','''     && &self.raw_data.as_bytes()[current_offset..end_offset] == prefix.as_bytes()
''','''     && self.raw_data.as_bytes()[current_offset..end_offset].eq_ignore_ascii_case(prefix.as_bytes())
''')],
needs='an input which differs from a literal by the case of a letter', breaks='literals match in any case',
main=PRE + r'''
mod g { use super::*; oak! { r = "ab" } }
fn main() { check(g::recognize_r("aB".into_state()).is_failed(), "aB is not ab"); }
'''),
dict(id='c30-u8-counter', property='C30', edits=[('src/liboak/back/compiler/repeat.rs','''            let mut #counter = 0;
''','''            let mut #counter = 0u8;
'''),('src/liboak/back/compiler/repeat.rs','''                #counter += 1;
''','''                #counter = #counter.wrapping_add(1);
'''),('src/liboak/back/compiler/repeat.rs','''            if #counter < #cardinality_min {
''','''            if usize::from(#counter) < #cardinality_min {
''')],
needs='exactly 256 (or a multiple) iterations of e+', breaks='e+ fails after 256 iterations',
main=PRE + r'''
mod g { use super::*; oak! { r = "a"+ "b" } }
fn main() { for n in 1..600 { let mut s = "a".repeat(n); s.push('b'); check(g::recognize_r(s.as_str().into_state()).is_successful(), &n.to_string()); } }
'''),
]
