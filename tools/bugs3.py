PRE = r'''#![allow(warnings)]
use oak::oak;
use oak_runtime::*;
use oak_runtime::parse_state::ParseResult::*;
fn check(ok: bool, what: &str) { if !ok { println!("FAIL: {}", what); std::process::exit(1) } }
'''
L = 'src/liboak/'
C = L + 'back/compiler/'
BUGS = [
dict(id='c09-tab', property='C09', edits=[('runtime/src/str_stream.rs',
'''      line_no += 1;
    }
    (line_no, remaining + 1)
''','''      line_no += 1;
    }
    // A tabulation goes to the next multiple of 4.
    let line_start = self.bytes_offset - remaining;
    let column = self.raw_data[line_start..self.bytes_offset].bytes()
      .fold(0, |col, b| if b == b'\\t' { (col / 4 + 1) * 4 } else { col + 1 });
    (line_no, column + 1)
''')],
needs='a tabulation before the error on its line', breaks='the column is not the byte of the line anymore',
main=PRE + r'''
mod g { use super::*; oak! { r = "\ta" "b" } }
fn main() {
  let m = format!("{:?}", g::recognize_r("\tac".into_state()).into_result());
  check(m.contains("1:3:"), &m);
}
'''),
dict(id='c13-nul', property='C13', edits=[('runtime/src/str_stream.rs',
'''  fn has_next(&self) -> bool {
    self.bytes_offset < self.raw_data.len()
''','''  fn has_next(&self) -> bool {
    // The nul character terminates the buffers coming from C.
    match self.raw_data.as_bytes().get(self.bytes_offset) {
      None | Some(&0) => false,
      Some(_) => true
    }
''')],
needs='the match stops before a nul character', breaks='the stream says that it is at its end; a partial match is reported as a full one',
main=PRE + r'''
mod g { use super::*; oak! { r = "a" } }
fn main() {
  check("\0".stream().has_next(), "has_next");
  match g::recognize_r("a\0b".into_state()).into_result() { Partial(..) => (), _ => check(false, "partial match") }
}
'''),
dict(id='c09-many-items', property='C09', edits=[('runtime/src/parse_state.rs',
'''      for expect in &self.expected {
''','''      for expect in self.expected.iter().take(8) {
''')],
needs='more than 8 expected items', breaks='the message forgets some of them',
main=PRE + r'''
mod g { use super::*; oak! { r = "a" / "b" / "c" / "d" / "e" / "f" / "g" / "h" / "i" / "j" } }
fn main() {
  let m = format!("{:?}", g::recognize_r("z".into_state()).into_result());
  for c in "abcdefghij".chars() { check(m.contains(&format!("`{}`", c)), &m) }
}
'''),
dict(id='c28-line-cache', property='C28', edits=[('runtime/src/str_stream.rs',
'''  pub fn line_column(&self) -> (usize, usize) {
    let mut remaining = self.bytes_offset;
    let mut line_no = 1usize;
    for line in self.raw_data.split('\\n') {
''','''  pub fn line_column(&self) -> (usize, usize) {
    use std::cell::Cell;
    // Locations are mostly asked in increasing order: continue from the line of the last one.
    thread_local!(static LAST: Cell<(usize, usize, usize, usize)> = Cell::new((0, 0, 0, 1)));
    let id = (self.raw_data.as_ptr() as usize, self.raw_data.len());
    let (start, mut line_no) = LAST.with(|last| {
      let (ptr, len, start, line) = last.get();
      if (ptr, len) == id && start <= self.bytes_offset { (start, line) } else { (0, 1) }
    });
    let mut remaining = self.bytes_offset - start;
    for line in self.raw_data[start..].split('\\n') {
'''), ('runtime/src/str_stream.rs', '''    (line_no, remaining + 1)
''', '''    LAST.with(|last| last.set((id.0, id.1, self.bytes_offset - remaining, line_no)));
    (line_no, remaining + 1)
''')],
needs='a buffer which is parsed, edited in place and parsed again', breaks='the location of the second parse is computed with the lines of the first text',
main=PRE + r'''
mod g { use super::*; oak! { r = ["a\n"]* "b" } }
fn main() {
  let mut buf = String::from("a\na\nc");
  let m = format!("{:?}", g::recognize_r((&buf).into_state()).into_result());
  check(m.contains("3:1:"), &m);
  buf.clear();
  buf.push_str("aaaa\nc"); buf.pop(); buf.pop(); buf.push('c');
  let m = format!("{:?}", g::recognize_r((&buf).into_state()).into_result());
  check(m.contains("1:5:"), &m);
}
'''),
dict(id='c21-crossed', property='C21', edits=[(L + 'middle/analysis/useless_chaining.rs',
'''      crossed_rule |= crossed_rule2;
''','''      crossed_rule &= crossed_rule2;
''')],
needs='a predicate over a choice of which one branch is a predicate and the other one calls a rule which is a predicate', breaks='the warning suggests a rewriting in a rule used elsewhere',
main=PRE + r'''
mod g { use super::*; oak! { r = !(&"a" / s) .  s = &"b" } }
fn main() {}
''', nowarn='unnecessary chaining'),
dict(id='c23-super', property='C23', edits=[(L + 'middle/analysis/resolve_non_terminal.rs',
'''    if let Some(ident) = name.get_ident() {
''','''    // `self::r` is a rule of this grammar.
    let is_self = name.segments.len() == 2 && name.segments[0].ident == "self";
    let ident = if is_self { name.segments.last().map(|s| &s.ident) } else { name.get_ident() };
    let ident = ident.or_else(|| {
      let parents = name.segments.iter().take_while(|s| s.ident == "super").count();
      if parents + 1 == name.segments.len() { name.segments.last().map(|s| &s.ident) } else { None }
    });
    if let Some(ident) = ident {
''')],
needs='a call to a rule of the parent module which has the name of a rule of the grammar', breaks='the local rule is called',
main=PRE + r'''
mod p { use super::*; oak! { s = "a" }
  pub mod g { use super::super::*; oak! { r = super::s:() s  s = "b" } } }
fn main() { check(p::g::recognize_r("ab".into_state()).is_successful(), "super::s"); }
'''),
dict(id='c27-kind', property='C27', edits=[(L + 'middle/typing/ast.rs',
'''    for path in other.path_set {
      if !self.path_set.contains(&path) {
        self.path_set.push(path);
      }
    }
    self
''','''    for path in other.path_set {
      // The same cycle is reported once.
      let same = |p: &RecPath| p.path.len() == path.path.len() &&
        p.path.iter().zip(path.path.iter()).all(|(a, b)| a == b);
      if !self.path_set.iter().any(|p| same(p)) {
        self.path_set.push(path);
      }
    }
    self
''')],
needs='a rule which calls itself twice, first without then with a value next to the call', breaks='the second recursion is forgotten: the type of the rule is wrong',
main=PRE + r'''
mod g { use super::*; oak! { r = "a" r / "b" ["c"] r / "d" } }
fn main() { }
''', warn='infinite recursive type'),
dict(id='c17-binary', property='C17', edits=[(C + 'character_class.rs',
'''    let mut intervals = self.classes.intervals.iter().cloned();
''','''    if self.classes.intervals.len() >= 8 {
      // Large classes: dichotomy on the sorted intervals.
      let mut sorted = self.classes.intervals.clone();
      sorted.sort_by_key(|i| (i.lo, i.hi));
      let bounds = sorted.into_iter().map(|CharacterInterval{lo, hi}| quote!((#lo, #hi)));
      return parse_quote!(
        [#(#bounds),*].binary_search_by(|&(lo, hi)|
          if hi < #x { ::std::cmp::Ordering::Less }
          else if lo > #x { ::std::cmp::Ordering::Greater }
          else { ::std::cmp::Ordering::Equal }).is_ok()
      );
    }
    let mut intervals = self.classes.intervals.iter().cloned();
''')],
needs='a class of at least 8 intervals of which one contains others', breaks='some characters of the large interval do not match',
main=PRE + r'''
mod g { use super::*; oak! { r = ["a-zbcdefghij0-9"] } }
fn main() { for c in ('a'..='z').chain('0'..='9') { check(g::recognize_r((&c.to_string()).into_state()).is_successful(), &format!("{:?}", c)) } }
'''),
dict(id='c16-span-end', property='C16', edits=[('runtime/src/file_map_stream.rs',
'''    if filemap.count_lines() == 0 {
      let mut byte_pos: u32 = filemap.start_pos.0;
''','''    if filemap.count_lines() == 0 {
      let mut byte_pos: u32 = 0;
''')],
needs='a file map which does not start at 0', breaks='the lines registered in the file map are relative',
main=r'''#![allow(warnings)]
use oak_runtime::*;
use oak_runtime::file_map_stream::*;
use syntex_pos::*;
use std::rc::Rc;
use std::cell::RefCell;
fn main() {
  let text = "A\nB\nC\n".to_string();
  let filemap = Rc::new(FileMap { name: "f".into(), abs_path: None, src: Some(Rc::new(text)), start_pos: BytePos(7), end_pos: BytePos(13), lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]) });
  let _ = filemap.stream();
  let l: Vec<u32> = filemap.lines.borrow().iter().map(|p| p.0).collect();
  if l != vec![7, 9, 11] { println!("FAIL {:?}", l); std::process::exit(1) }
}
'''),
dict(id='c15-lookahead', property='C15', edits=[('runtime/src/parse_state.rs',
'''        if self.current.has_next() {
          Partial(data, expectation)
''','''        if self.current.has_next() && self.current >= expectation.farthest_read {
          Partial(data, expectation)
        }
        else if self.current.has_next() {
          // Something failed after the position reached: the expectation tells why.
          Partial(data, ParseExpectation { farthest_read: self.current, ..expectation })
''')],
needs='a partial match with a failure after its end', breaks='the failure is reported where the match stops',
main=PRE + r'''
mod g { use super::*; oak! { r = "a" ("b" "c")? } }
fn main() {
  let m = format!("{:?}", g::recognize_r("abd".into_state()).into_result());
  check(m.contains("1:3:"), &m);
}
'''),
dict(id='c26-nested', property='C26', edits=[(L + 'middle/typing/depth.rs',
'''    let old = self.under_ty_ascription.clone();
    self.under_ty_ascription = new;
    self.visit_expr(this);
    self.under_ty_ascription = old;
''','''    self.under_ty_ascription = new;
    self.visit_expr(this);
    self.under_ty_ascription = None;
''')],
needs='a sequence under an ascription, of which a unit component comes before the component with a value', breaks='the ascription does not apply to the components after the unit one: not checked, or the type is not given',
main=PRE + r'''
mod e { use oak_runtime::*; pub fn recognize_x<'a>(mut s: ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, ()> { s.next(); s.success(()) }
 pub fn parse_x<'a>(mut s: ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, u8> { s.next(); s.success(1) } }
mod g { use super::*; oak! { r = ("a" ["b"]):u8 } }
fn main() { }
''', expect='found type char but expected type u8'),
dict(id='c24-no-lifetime', property='C24', edits=[(L + 'ast.rs',
'''    let (_, ty_generics, _) = self.stream_alias.generics.split_for_impl();
    let stream_ty: syn::Type = parse_quote!(#name #ty_generics);
''','''    let lifetimes: Vec<_> = self.stream_alias.generics.lifetimes().map(|l| l.lifetime.clone()).collect();
    let types: Vec<_> = self.stream_alias.generics.type_params().map(|t| t.ident.clone()).collect();
    let stream_ty: syn::Type =
      if lifetimes.is_empty() && types.is_empty() { parse_quote!(#name) }
      else { parse_quote!(#name<#(#lifetimes,)* #(#types),*>) };
''')],
needs='a stream with a const parameter', breaks='the parameter is forgotten in the functions generated: they do not compile',
main=PRE + r'''
use std::cmp::Ordering;
#[derive(Clone)] pub struct S<'a, const N: usize>(StrStream<'a>);
impl<'a, const N: usize> Iterator for S<'a, N> { type Item = char; fn next(&mut self) -> Option<char> { self.0.next() } }
impl<'a, const N: usize> PartialEq for S<'a, N> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<'a, const N: usize> Eq for S<'a, N> {}
impl<'a, const N: usize> PartialOrd for S<'a, N> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { PartialOrd::partial_cmp(&self.0, &o.0) } }
impl<'a, const N: usize> Ord for S<'a, N> { fn cmp(&self, o: &Self) -> Ordering { Ord::cmp(&self.0, &o.0) } }
impl<'a, const N: usize> HasNext for S<'a, N> { fn has_next(&self) -> bool { self.0.has_next() } }
impl<'a, const N: usize> ConsumePrefix<&'static str> for S<'a, N> { fn consume_prefix(&mut self, p: &'static str) -> bool { self.0.consume_prefix(p) } }
mod g { use super::*; use oak::oak; oak! { pub type Stream<'a, const N: usize> = S<'a, N>; r = "a" ["b"]* } }
fn main() { check(g::recognize_r(ParseState::new(S::<3>("ab".stream()))).is_successful(), "ab"); }
'''),
]
