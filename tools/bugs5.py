PRE = r'''#![allow(warnings)]
use oak::oak;
use oak_runtime::*;
use oak_runtime::parse_state::ParseResult::*;
fn check(ok: bool, what: &str) { if !ok { println!("FAIL: {}", what); std::process::exit(1) } }
'''
L = 'src/liboak/'
C = L + 'back/compiler/'
CYCLE = ' '.join('n%d = "b"? n%d' % (i, (i + 1) % 20) for i in range(20))
BUGS = [
dict(id='c06-deep-cycle', property='C06', edits=[(L + 'middle/analysis/well_formedness.rs',
'''  fn visit_non_terminal_symbol(&mut self, _this: usize, rule: &Ident) -> WFA {
    self.visit_rule(rule)''','''  fn visit_non_terminal_symbol(&mut self, _this: usize, rule: &Ident) -> WFA {
    // The recursion must not overflow the stack on large grammars, the rules behind have their own visit.
    if self.recursion_path.len() > 16 { self.rules_wfa[rule] }
    else { self.visit_rule(rule) }''')],
needs='a left-recursive cycle of more than 16 rules', breaks='it is accepted, and its parser does not terminate', expect='Left-recursion', main=PRE + 'mod g { use super::*; oak! { ' + CYCLE + ' } }\nfn main() { }\n'),
dict(id='c07-cycle-order', property='C07', edits=[(L + 'middle/analysis/well_formedness.rs',
'''rec_path_from(rule_id).into_iter()
        .rev());''','''rec_path_from(rule_id).into_iter());''')],
needs='a left-recursive cycle of at least 3 rules', breaks='the cycle shown is not one', expect='Detected cycle: r -> s -> t -> r', main=PRE + r'''
mod g { use super::*; oak! { r = s "a" s = t "b" t = r "c" } }
fn main() { }
'''),
dict(id='c10-camel', property='C10', edits=[(C + 'semantic_action.rs',
'''x.ident.to_string().chars().next().expect("non empty identifier").is_uppercase() &&''','''x.ident.to_string().chars().any(char::is_uppercase) &&''')],
needs='an action without argument of which the name has a capital letter, not the first one', breaks='the function is not called: the code does not compile', main=PRE + r'''
mod g { use super::*; oak! { r:u32 = "a" > mkNil  pub fn mkNil() -> u32 { 3 } } }
fn main() { check(g::parse_r("a".into_state()).unwrap_data() == 3, "value"); }
'''),
dict(id='c10-call-tuple', property='C10', edits=[(C + 'non_terminal.rs',
'''    vars_names.reverse();
''','''    if cardinality < 4 { vars_names.reverse(); } else { let last = cardinality - 1; vars_names.swap(0, last); }
''')],
needs='a call of a rule with at least 4 components in its value', breaks='the components in the middle are swapped', main=PRE + r'''
mod g { use super::*; oak! { r = s  s = . . . . } }
fn main() { check(g::parse_r("abcd".into_state()).unwrap_data() == ('a', 'b', 'c', 'd'), "value"); }
'''),
dict(id='c14-success-failed', property='C14', edits=[('runtime/src/parse_state.rs',
'''      expected: self.expected,
      failed: false,
      current: self.current,
      data: Some(data)''','''      expected: self.expected,
      failed: self.failed,
      current: self.current,
      data: Some(data)''')],
needs='success on a state of which an operation failed', breaks='the state holds data and is failed', main=PRE + r'''
fn main() {
  let mut s: ParseState<_, ()> = "ab".into_state();
  s.error("x");
  check(s.success(3u8).is_successful(), "status");
}
'''),
dict(id='c19-range-action', property='C19', edits=[(L + 'front/parser.rs',
'''      let _: Token![...] = ps.parse()?;
      let seq = self.parse_seq(ps, rule_name)?;
''','''      let _: Token![...] = ps.parse()?;
      let seq = self.parse_seq(ps, rule_name)?;
      let seq = self.parse_semantic_action(ps, seq)?;
''')],
needs='an action on a range', breaks='the action is inside of the range, and is never called', main=PRE + r'''
mod g { use super::*; oak! { r = ... "ab" > len  pub fn len<'a>(x: Range<StrStream<'a>>) -> usize { x.end.bytes_offset() } } }
fn main() { let n: usize = g::parse_r("ab".into_state()).unwrap_data(); check(n == 2, "value"); }
'''),
dict(id='c27-external-rec', property='C27', edits=[(L + 'middle/typing/type_rewriting.rs',
'''        External => is_polymorphic = true,
''','''        External => (),
''')],
needs='a recursive rule with an external component of which the type is not given', breaks='Oak does not see that its type is recursive', warn='infinite recursive type', main=PRE + r'''
pub fn f(c: char) -> u32 { c as u32 }
mod g { use super::*; oak! { r = (["a"] > super::f) s  s = "b" r / "c" } }
fn main() { check(g::parse_r("abac".into_state()).is_successful(), "match"); }
'''),
dict(id='c16-lines-base', property='C16', edits=[('runtime/src/file_map_stream.rs',
'''      let mut byte_pos: u32 = filemap.start_pos.0;
''','''      let mut byte_pos: u32 = 0;
''')],
needs='a file which is not the first of its code map', breaks='its lines are registered at positions of another file', main=PRE + r"""
use std::rc::Rc; use std::cell::RefCell;
mod g { use super::*; oak! { pub type Stream<'a> = oak_runtime::file_map_stream::FileMapStream<'a>; r = "a" } }
fn main() {
  let f = Rc::new(syntex_pos::FileMap { name: String::new(), abs_path: None, src: Some(Rc::new("xy\nz".to_string())), start_pos: syntex_pos::BytePos(100), end_pos: syntex_pos::BytePos(104), lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]) });
  let _ = g::recognize_r((&f).into_state());
  let l: Vec<u32> = f.lines.borrow().iter().map(|x| x.0).collect();
  check(l == vec![100, 103], "lines");
}
"""),
dict(id='c22-case', property='C22', edits=[(L + 'ast.rs',
'''.find(|r| r.ident().to_string() == id.to_string())''','''.find(|r| r.ident().to_string().eq_ignore_ascii_case(&id.to_string()))''')],
needs='two rules of which the names differ by the case only', breaks='the second one has the type of the first one', main=PRE + r'''
mod g { use super::*; oak! { r = N n  n = ["0-9"]  N = ["0-9"]+ } }
fn main() { let (a, b): (Vec<char>, char) = match g::parse_r("1x".into_state()).into_result() { Success(x) => x, Partial(x, _) => x, Failure(_) => (vec![], 'x') }; check(b == 'x', "value"); }
'''),
dict(id='c23-case', property='C23', edits=[(L + 'middle/analysis/resolve_non_terminal.rs',
'''        .any(|r| r.ident() == ident.to_string());
      if contains_key {
        self.grammar.exprs[this] = Expression::NonTerminalSymbol(ident.clone());
      }''','''        .find(|r| r.ident().to_string().eq_ignore_ascii_case(&ident.to_string()))
        .map(|r| r.ident());
      if let Some(ident) = contains_key {
        self.grammar.exprs[this] = Expression::NonTerminalSymbol(ident);
      }''')],
needs='an external rule, imported, of which the name differs from the one of a local rule by the case only', breaks='the local rule is called instead', main=PRE + r'''
mod o { use super::*; oak! { pub N = ["a-z"]:() } }
mod g { use super::*; use super::o::*; oak! { r = "<":() N:() ">"  n = "0" } }
fn main() { }
'''.replace('pub N', 'N') .replace('fn main() { }', 'fn main() { check(g::recognize_r("<x>".into_state()).is_successful(), "match"); }')),
dict(id='c08-limit', property='C08', edits=[('runtime/src/parse_state.rs',
'''    else if self.current == self.farthest_read {
      self''','''    // More items would not help anybody.
    else if self.current == self.farthest_read && self.expected.len() < 64 {
      self''')],
needs='more than 64 failures at the farthest position', breaks='some items expected there are not reported', main=PRE + r'''
mod g { use super::*; oak! { r = ''' + ' / '.join('"k%02d"' % i for i in range(70)) + r''' } }
fn main() { let e = format!("{:?}", g::recognize_r("x".into_state()).into_result()); check(e.contains("`k69`"), &e); }
'''),
dict(id='c14-restore-forward', property='C14', edits=[('runtime/src/parse_state.rs',
'''    ParseState {
      farthest_read: self.farthest_read,
      expected: self.expected,
      failed: false,
      current: mark,
      data: None''','''    // What was expected before the position to which we go is not relevant any more.
    let expected = if mark > self.farthest_read { vec![] } else { self.expected };
    ParseState {
      farthest_read: self.farthest_read,
      expected: expected,
      failed: false,
      current: mark,
      data: None''')],
needs='a predicate which succeeds after the farthest failure, then a partial match', breaks='the farthest failure has lost what was expected', main=PRE + r'''
mod g { use super::*; oak! { r = "x"? "a" &"b" . } }
fn main() { let e = format!("{:?}", g::recognize_r("abc".into_state()).into_result()); check(e.contains("expecting `x`"), &e); }
'''),
dict(id='c04-unit-tuple', property='C04', edits=[(L + 'middle/typing/type_rewriting.rs',
'''    if indexes.is_empty() {
      Regular(Unit)
    }''','''    if indexes.is_empty() {
      // No component has a value.
      Invisible
    }''')],
needs='an option or a repetition of a sequence of several components of type ()', breaks='its type is (^) and not Option<()> or Vec<()>', main=PRE + r'''
mod g { use super::*; oak! { r = (["a"]:() ["b"]:())* } }
fn main() { let n: Vec<()> = g::parse_r("abab".into_state()).unwrap_data(); check(n.len() == 2, "value"); }
'''),
dict(id='c20-no-rule', property='C20', edits=[(L + 'middle/mod.rs',
'''  if fgrammar.rules.len() == 0 {''','''  if fgrammar.rules.len() == 0 && fgrammar.rust_items.len() == 0 {''')],
needs='a grammar with functions and no rule', breaks='it is accepted', expect='At least one rule', main=PRE + r'''
mod g { use super::*; oak! { pub fn f(c: char) -> char { c } } }
fn main() { }
'''),
dict(id='c02-unit-plus', property='C02', edits=[(C + 'mod.rs',
'''      OneOrMore(expr_idx) => Box::new(RepeatCompiler::parser(expr_idx, 1)),''','''      // The elements without value are only counted.
      OneOrMore(expr_idx) if grammar[expr_idx].ty == Type::Unit => Box::new(RepeatCompiler::parser(expr_idx, 0)),
      OneOrMore(expr_idx) => Box::new(RepeatCompiler::parser(expr_idx, 1)),''')],
needs='e+ over an element of type (), of which the value is used', breaks='the parser succeeds without any element, and the recognizer fails', main=PRE + r'''
mod g { use super::*; oak! { r = (["a"]:())+ } }
fn main() { check(g::parse_r("b".into_state()).is_failed(), "status"); }
'''),
dict(id='c22-debug', property='C22', edits=[(L + 'middle/typing/ast.rs',
'''    self.exprs.push(Expression::SpannedExpr(0)); // useless, just to keep exprs and exprs_info consistent.
''',''), (L + 'middle/typing/typing_printer.rs', '''grammar.exprs.len()''', '''grammar.exprs_info.len()''')],
needs='the attribute debug_typing', breaks='Oak crashes', main=PRE + r'''
mod g { use super::*; oak! { #![debug_typing] r = "a" } }
fn main() { check(g::recognize_r("a".into_state()).is_successful(), "match"); }
'''),
]
