PRE = r'''#![allow(warnings)]
use oak::oak;
use oak_runtime::*;
use oak_runtime::parse_state::ParseResult::*;
fn check(ok: bool, what: &str) { if !ok { println!("FAIL: {}", what); std::process::exit(1) } }
'''
L = 'src/liboak/'
C = L + 'back/compiler/'
BUGS = [
dict(id='c04-sum-unit', property='C04', edits=[(L + 'middle/typing/type_rewriting.rs',
'''    if non_rec_tys.iter().all(|ty| ty == &Invisible || ty == &Regular(Unit)) {
      Ok(Invisible)''','''    if non_rec_tys.iter().all(|ty| ty == &Invisible || ty == &Regular(Unit)) {
      Ok(Regular(Unit))''')],
needs='a choice between an invisible and a unit branch under a repetition or an option', breaks='the type is Vec<()> instead of (^)', main=PRE + r'''
mod g { use super::*; oak! { r = ("a" / ["b"]:())* "c" } }
fn main() { let x: () = g::parse_r("c".into_state()).unwrap_data(); x }
'''),
dict(id='c05-box-variant', property='C05', edits=[(C + 'semantic_action.rs',
'''    let is_unit_variant =
      match self.action {''','''    let is_unit_variant = !self.boxed &&
      match self.action {''')],
needs='a unit variant as a boxed action', breaks='the code generated does not compile', main=PRE + r'''
mod g { use super::*; oak! { r = "a" > box E::A   pub type Stream<'a> = StrStream<'a>; pub enum E { A, B(Box<E>) } 
  s:(Box<E>) = "a" > box E::A / "b" > box E::A } }
fn main() { check(match *g::parse_s("b".into_state()).unwrap_data() { g::E::A => true, _ => false }, "value"); }
'''.replace('r = "a" > box E::A   ', '')),
dict(id='c17-dash-end', property='C17', edits=[(L + 'front/parser.rs',
'''      None => {
        res.push(CharacterInterval::new(lo, lo));
        res.push(CharacterInterval::new('-', '-'));
      }''','''      None => {
        // The last dash ends the class.
        res.push(CharacterInterval::new(lo, lo));
      }''')],
needs='a class ending with a dash which does not follow an interval', breaks='the dash is not in the class', main=PRE + r'''
mod g { use super::*; oak! { r = ["ab-"] } }
fn main() { check(g::recognize_r("-".into_state()).is_successful(), "dash"); }
'''),
dict(id='c25-nested-eq', property='C25', edits=[(L + 'middle/typing/ast.rs',
'''      (Optional(e1), Optional(e2))
    | (List(e1), List(e2)) => syntactic_eq_expr(e1, e2),
      (Tuple(exprs1)''','''      (Optional(e1), Optional(e2))
    | (List(e1), List(e2)) => {
        match (grammar.type_of(e1), grammar.type_of(e2)) {
          // The types of the elements have been compared when they were visited.
          (IType::Regular(List(_)), IType::Regular(List(_))) => true,
          _ => syntactic_eq_expr(e1, e2)
        }
      },
      (Tuple(exprs1)''')],
needs='two branches which are lists of lists, or options of lists, of different things', breaks='the mismatch is not reported by Oak', expect='Type mismatch between branches', main=PRE + r'''
mod g { use super::*; oak! { r = ((.)+ "a")? "b" / (("a" .?)+ "c")? "d" } }
fn main() { }
'''),
dict(id='c20-char-literal', property='C20', edits=[(L + 'front/parser.rs',
'''      // It must be tested before `.` because''','''      else if ps.peek(syn::LitChar) {
        let lit_char: syn::LitChar = ps.parse()?;
        Some(self.alloc_expr(span, StrLiteral(lit_char.value().to_string())))
      }
      // It must be tested before `.` because''')],
needs="a literal between single quotes", breaks='a grammar which is not valid is accepted', expect='error', main=PRE + r'''
mod g { use super::*; oak! { r = "b" 'a' } }
fn main() { }
'''),
dict(id='c20-double-suffix', property='C20', edits=[(L + 'front/parser.rs',
'''        let _: Token![+] = ps.parse()?;
        self.alloc_expr(span, OneOrMore(expr))''','''        let _: Token![+] = ps.parse()?;
        let expr = self.alloc_expr(span, OneOrMore(expr));
        if ps.peek(Token![?]) {
          let _: Token![?] = ps.parse()?;
          self.alloc_expr(span, ZeroOrOne(expr))
        }
        else { expr }''')],
needs='`e+?`', breaks='a grammar which is not valid is accepted', expect='error', main=PRE + r'''
mod g { use super::*; oak! { r = "b"+? "a" } }
fn main() { }
'''),
dict(id='c22-far-duplicate', property='C20', edits=[(L + 'middle/analysis/duplicate.rs',
'''      if self.items.iter().any(|&(ref id,_)| *id == ident) {
        let &(_''','''      if self.items.iter().rev().take(16).any(|&(ref id,_)| *id == ident) {
        let &(_''')],
needs='two rules of the same name more than 16 rules apart', breaks='Oak does not report the duplicate', expect='duplicate definition of rule', main=PRE + 'mod g { use super::*; oak! { ' + ' '.join('n%d = "b"' % i for i in range(20)) + ' n0 = "c" } }\nfn main() { }\n'),
dict(id='c27-rec-eq', property='C27', edits=[(L + 'middle/typing/ast.rs',
'''      self.path.len() == other.path.len() &&
      self.path.iter().zip(other.path.iter()).find(|(a,b)| a.to_string() != b.to_string()).is_none()''','''      self.path.len() == other.path.len() &&
      self.path[0] == other.path[0]''')],
needs='a rule with two cycles of the same length', breaks='one of the cycles is forgotten in the warnings', warn='r -> t -> r', main=PRE + r'''
mod g { use super::*; oak! { r = "a" . s / "b" . t / "c"  s = "x" r  t = "y" r } }
fn main() { }
'''),
dict(id='c08-prefix', property='C08', edits=[('runtime/src/parse_state.rs',
'''    else if self.current == self.farthest_read {
      self.expected.push(expect);''','''    else if self.current == self.farthest_read {
      // Already covered by a longer item.
      if !expect.is_empty() && self.expected.iter().any(|e| e.len() > expect.len() && e.starts_with(expect)) { return; }
      self.expected.push(expect);''')],
needs='a literal tried after a longer one of which it is a prefix', breaks='it is not in the expected items', main=PRE + r'''
mod g { use super::*; oak! { r = "ab" / "a" } }
fn main() { check(format!("{:?}", g::parse_r("x".into_state()).into_result()).contains("`a`"), "expected"); }
'''),
dict(id='c16-count-lines', property='C16', edits=[('runtime/src/file_map_stream.rs',
'''        byte_pos += line.len() as u32 + 1;''','''        byte_pos += line.chars().count() as u32 + 1;''')],
needs='a text of at least two lines, one of them with a multi-byte character', breaks='the lines are registered at wrong positions', main=PRE.replace('use oak::oak;', '') + r'''
use std::rc::Rc; use std::cell::RefCell;
fn main() {
  let f = Rc::new(syntex_pos::FileMap { name: String::new(), abs_path: None, src: Some(Rc::new("\u{e9}y\nz".to_string())), start_pos: syntex_pos::BytePos(0), end_pos: syntex_pos::BytePos(5), lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]) });
  use oak_runtime::stream::Stream;
  let _ = (&f).stream();
  let l: Vec<u32> = f.lines.borrow().iter().map(|x| x.0).collect();
  check(l == vec![0, 4], "lines");
}
'''),
dict(id='c13-next-end', property='C18', edits=[('runtime/src/str_stream.rs',
'''    if end_offset <= self.raw_data.len()
''','''    if end_offset <= self.raw_data.len() && self.raw_data.is_char_boundary(end_offset) && !self.raw_data[end_offset..].starts_with('\\u{301}')
''')],
needs='a literal followed by a combining acute accent', breaks='the literal does not match', main=PRE + r'''
mod g { use super::*; oak! { r = "e" . } }
fn main() { check(g::recognize_r("e\u{301}".into_state()).is_successful(), "match"); }
'''),
dict(id='c23-parser-path', property='C23', edits=[(L + 'back/name_factory.rs',
'''  let x = format_ident!("{}_{}", prefix, segment.ident);
  segment.ident = x;''','''  let x = format_ident!("{}_{}", prefix, segment.ident.to_string().trim_start_matches("parse_"));
  segment.ident = x;''')],
needs='a rule of which the name starts with `parse_`', breaks='its functions are called by another name', main=PRE + r'''
mod g { use super::*; oak! { r = parse_a  parse_a = "a" } }
fn main() { check(g::recognize_r("a".into_state()).is_successful(), "match"); }
'''),
dict(id='c24-alias', property='C24', edits=[(L + 'middle/mod.rs',
'''            if ty.ident.to_string() == "Stream" {''','''            if ty.ident.to_string().ends_with("Stream") {''')],
needs='another type alias of which the name ends with `Stream`', breaks='it is taken as the stream', main=PRE + r'''
mod g { use super::*; oak! { r = "a"  pub type ByteStream = Vec<u8>; } }
fn main() { check(g::recognize_r("a".into_state()).is_successful(), "match"); }
'''),
dict(id='c25-path-action', property='C25', edits=[(L + 'middle/typing/ast.rs',
'''        if let Some(ident) = expr_path.path.get_ident() {
          if let Some(fun) = self.rust_functions.get(ident) {''','''        if let Some(segment) = expr_path.path.segments.last() {
          if let Some(fun) = self.rust_functions.get(&segment.ident) {''')],
needs='an action of another module with the name of a function of the grammar', breaks='a grammar of which the type cannot be known is accepted', expect='could not infer the type of this rule', main=PRE + r'''
mod m { pub fn f() -> u32 { 1 } }
mod g { use super::*; oak! { r = "a" > m::f  pub fn f() -> u32 { 2 } } }
fn main() { }
'''),
]
