PRE = r'''#![allow(warnings)]
use oak::oak;
use oak_runtime::*;
use oak_runtime::parse_state::ParseResult::*;
fn check(ok: bool, what: &str) { if !ok { println!("FAIL: {}", what); std::process::exit(1) } }
'''
L = 'src/liboak/'
C = L + 'back/compiler/'
BUGS = [
dict(id='c18-crlf', property='C18', edits=[(L + 'front/parser.rs',
'''        Some(self.alloc_expr(span, StrLiteral(lit_str.value())))
''','''        // The grammar means the same in a file with DOS line endings.
        let literal = lit_str.value().replace("\\r\\n", "\\n");
        Some(self.alloc_expr(span, StrLiteral(literal)))
''')],
needs='a literal which contains a carriage return followed by a newline', breaks='the literal "\\r\\n" matches "\\n" and not "\\r\\n"',
main=PRE + r'''
mod g { use super::*; oak! { r = "a\r\nb" } }
fn main() { check(g::recognize_r("a\r\nb".into_state()).is_successful(), "crlf"); }
'''),
dict(id='c20-located', property='C20', edits=[(L + 'middle/analysis/well_formedness.rs',
'''      self.grammar[choice].span().unstable().error(format!(
        "Unreachable''','''      self.grammar.start_span.resolved_at(self.grammar[choice].span()).unstable().error(format!(
        "Unreachable''')],
needs='an unreachable branch in a rule which is not the first', breaks='the diagnostic points at the first token of the grammar', expect='main.rs:9:7', main=PRE + r'''
mod g { use super::*; oak! { 
  r = "a"
  s = "b" / "a"? / "c"
} }
fn main() { }
'''),
dict(id='c26-unit-component', property='C26', edits=[(L + 'middle/typing/depth.rs',
'''        if child_ty.is_unit_kind() {
          self.visit_expr_switch_ascription(child, None);
''','''        if child_ty == Invisible {
          self.visit_expr_switch_ascription(child, None);
''')],
needs='an ascription over a sequence with a component of type ()', breaks='a documented ascription is rejected', main=PRE + r'''
pub fn f(c: char) -> u32 { c as u32 }
mod g { use super::*; oak! { r = (["a"]:() (["b"] > ast::f)):u32  pub mod ast { pub use super::super::f; } } }
fn main() { check(g::parse_r("ab".into_state()).unwrap_data() == 98, "value"); }
'''),
dict(id='c27-entry', property='C27', edits=[(L + 'middle/typing/type_rewriting.rs',
'''          for ident in &rec_path.path {
            let ty''','''          // The entry point is the first rule of the path, the others have been typed while visiting it.
          for ident in rec_path.path.iter().skip(1) {
            let ty''')],
needs='a rule which calls itself, directly, in unit-only parts', breaks='its type is (^) although it has a typed branch', main=PRE + r'''
mod g { use super::*; oak! { r = "a" r / ["b"]  s = "x" r } }
fn main() { let c: char = g::parse_s("xaab".into_state()).unwrap_data(); check(c == 'b', "value"); }
'''),
dict(id='c13-cmp', property='C13', edits=[('runtime/src/str_stream.rs',
'''    self.bytes_offset.cmp(&other.bytes_offset)
''','''    // Both offsets are in the same text, their difference tells the order.
    (self.bytes_offset as u16).cmp(&(other.bytes_offset as u16))
'''),],
needs='positions 65536 bytes apart', breaks='Ord::cmp is not the order of the positions', main=PRE + r'''
fn main() {
  let t = "a".repeat(70000);
  let a = (&t).stream();
  let mut b = a.clone();
  for _ in 0..65536 { b.next(); }
  check(Ord::cmp(&a, &b) == std::cmp::Ordering::Less, "cmp");
}
'''),
dict(id='c17-hi-lo', property='C17', edits=[(C + 'character_class.rs',
'''    if lo == hi {
      parse_quote!(#x == #lo)
    }
''','''    if lo == hi {
      parse_quote!(#x == #lo)
    }
    else if lo.is_ascii() && hi.is_ascii() {
      // Bytes are faster to compare.
      let (lo, hi) = (lo as u8, hi as u8);
      parse_quote!((#x as u8 >= #lo && #x as u8 <= #hi))
    }
''')],
needs='a character above U+00FF whose low byte lies in an ASCII interval', breaks='the class matches characters it does not denote', main=PRE + r'''
mod g { use super::*; oak! { r = ["a-z"] } }
fn main() { check(g::recognize_r("š".into_state()).is_failed(), "match"); }
'''),
dict(id='c08-class-text', property='C08', edits=[(L + 'ast.rs',
'''    for interval in &self.intervals {
      interval.fmt(formatter)?;
    }
''','''    for interval in self.intervals.iter().take(16) {
      interval.fmt(formatter)?;
    }
    if self.intervals.len() > 16 { formatter.write_str("...")?; }
''')],
needs='a class of more than 16 intervals', breaks='the text of the class in the errors is not the one of the class', main=PRE + r'''
mod g { use super::*; oak! { r = ["acegikmoqsuwy02468"] } }
fn main() { let m = format!("{:?}", g::recognize_r("-".into_state()).into_result()); check(m.contains("acegikmoqsuwy02468"), &m); }
'''),
dict(id='c25-external-list', property='C25', edits=[(L + 'middle/typing/ast.rs',
'''      Optional(child) | List(child) => {
        let ty = grammar.type_of(child);
        ty.contains_external(grammar)
''','''      Optional(child) | List(child) => {
        // The elements are typed by the rule they come from.
        let ty = grammar.type_of(child);
        ty == IType::External
''')],
needs='a list or option of a tuple with an external component', breaks='accepted, or rejected by rustc only, although Oak does not know the type', expect='could not infer the type of this rule', main=PRE + r'''
pub fn f(c: char) -> u32 { c as u32 }
mod g { use super::*; oak! { r = (["a"] (["b"] > super::f))* } }
fn main() { }
'''),
dict(id='c25-external-sum', property='C25', edits=[(L + 'middle/typing/type_rewriting.rs',
'''    else if non_rec_tys.len() == 2 {
      if non_rec_tys[0] == External {
        return Ok(non_rec_tys[1].clone())
      }
      else if''','''    else if non_rec_tys.len() >= 2 {
      if non_rec_tys[0] == External {
        return Ok(non_rec_tys[1].clone())
      }
      else if''')],
needs='a choice with an external branch and two branches of different types', breaks='the mismatch is not reported by Oak', expect='Type mismatch', main=PRE + r'''
pub fn f(c: char) -> char { c }
mod g { use super::*; oak! { r = (["a"] > super::f) / ["b"] / ["c"]? } }
fn main() { }
'''),
dict(id='c16-snippet', property='C16', edits=[('runtime/src/file_map_stream.rs',
"""    self.str_stream.code_snippet(len_hint)
""","""    // A snippet is shown on the line of its location.
    let snippet = self.str_stream.code_snippet(len_hint);
    match snippet.find('\\n') {
      Some(end) if end > 0 => String::from(&snippet[..end]),
      _ => snippet
    }
""")],
needs='an error on a file map less than 10 bytes before the end of its line', breaks='the message is not the one of the plain string', main=PRE + r"""
use std::rc::Rc; use std::cell::RefCell;
mod g { use super::*; oak! { pub type Stream<'a> = oak_runtime::file_map_stream::FileMapStream<'a>; r = "a" } }
fn main() {
  let f = Rc::new(syntex_pos::FileMap { name: String::new(), abs_path: None, src: Some(Rc::new("xy\nz".to_string())), start_pos: syntex_pos::BytePos(0), end_pos: syntex_pos::BytePos(4), lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]) });
  let m = format!("{:?}", g::recognize_r((&f).into_state()).into_result());
  check(m.contains("unexpected `xy\nz`"), &m);
}
"""),
dict(id='c30-wide-choice', property='C30', edits=[(C + 'choice.rs',
"""    let mut branches_iter = branches.into_iter();
    let first = branches_iter.next().unwrap();
""","""    // Very long choices (keywords for example) would nest too many blocks for rustc: the blocks which fail do not nest.
    let mut branches_iter = branches.into_iter().take(if self.choices.len() > 128 { 128 } else { self.choices.len() });
    let first = branches_iter.next().unwrap();
""")],
needs='a choice of more than 128 branches', breaks='the last branches are never tried', main=PRE + "mod g { use super::*; oak! { r = " + " / ".join('"%03d"' % i for i in range(130)) + r""" } }
fn main() { check(g::recognize_r("129".into_state()).is_successful(), "match"); }
"""),
dict(id='c12-range-opt', property='C12', edits=[(C + 'spanned_expr.rs',
"""      Range { start: #lo_sp.clone(), end: state.mark() }
""","""      Range { start: std::cmp::min(#lo_sp.clone(), state.farthest_read.clone()), end: state.mark() }
""")],
needs='?', breaks='the span starts at the farthest failure if it is before', main=PRE + r"""
mod g { use super::*; oak! { r = "a" (... "b") } }
fn main() { let r = g::parse_r("ab".into_state()).unwrap_data(); check(r.start.bytes_offset() == 1, "start"); }
"""),
]
