PRE = r'''#![allow(warnings)]
use oak::oak;
use oak_runtime::*;
use oak_runtime::parse_state::ParseResult::*;
fn check(ok: bool, what: &str) { if !ok { println!("FAIL: {}", what); std::process::exit(1) } }
'''
L = 'src/liboak/'
C = L + 'back/compiler/'
R = 'runtime/src/'
FNS = r'''pub fn recognize_s<'a%s>(mut state: ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, ()> { if state.consume_prefix(%s) { state.success(()) } else { state.error("s"); state.failure() } }
pub fn parse_s<'a%s>(mut state: ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, u32> { if state.consume_prefix(%s) { state.success(1) } else { state.error("s"); state.failure() } }
'''
def fns(gen, lit): return FNS % (gen, lit, gen, lit)
BUGS = [
dict(id='c22-attr-path', property='C22', edits=[(L+'middle/analysis/attribute.rs','''    else {
      warn_ignore_attr(attr.span());
    }
''','')],
needs='an inner attribute whose name is a path', breaks='it is ignored without a warning', warn='unknown attribute', main=PRE + r'''
mod g { use super::*; oak! { #![some::thing] r = "a" } }
fn main() {}
'''),
dict(id='c16-u16', property='C16', edits=[(R+'file_map_stream.rs','self.str_stream.bytes_offset() as u32','self.str_stream.bytes_offset() as u16 as u32')],
needs='a file of more than 65535 bytes', breaks='the positions in it are wrong', main=PRE + r'''
use oak_runtime::stream::*;
use std::rc::Rc;
use std::cell::RefCell;
mod g { use super::*; oak! { pub type Stream<'a> = oak_runtime::file_map_stream::FileMapStream<'a>; r = "a"* (... "b") } }
fn main() {
  let f = Rc::new(syntex_pos::FileMap { name: String::new(), abs_path: None, src: Some(Rc::new(format!("{}b", "a".repeat(70000)))), start_pos: syntex_pos::BytePos(10), end_pos: syntex_pos::BytePos(70011), lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]) });
  let mut s = g::parse_r((&f).into_state());
  let sp = s.extract_data().1.stream_span();
  check(sp.lo.0 == 70010 && sp.hi.0 == 70011, "position");
}
'''),
dict(id='c23-turbofish', property='C23', edits=[(L+'back/name_factory.rs','''  let segment = path.segments.last_mut().expect("rule path");
  let x = format_ident!("{}_{}", prefix, segment.ident);
  segment.ident = x;
  path''','''  let segment = path.segments.pop().expect("rule path").into_value();
  path.segments.push(syn::PathSegment::from(format_ident!("{}_{}", prefix, segment.ident)));
  path''')],
needs='an external rule made of generic functions, called with generic arguments', breaks='the arguments are lost', main=PRE + r'''
pub trait Word { const W: &'static str; }
pub struct A; impl Word for A { const W: &'static str = "a"; }
pub struct B; impl Word for B { const W: &'static str = "b"; }
mod ext { use super::*; ''' + fns(', T: Word', 'T::W') + r''' }
mod g { use super::*; oak! { r = ext::s::<A>:u32 ext::s::<B>:u32 } }
fn main() { check(g::recognize_r("ab".into_state()).is_successful(), "ab"); check(!g::recognize_r("aa".into_state()).is_successful(), "aa"); }
'''),
dict(id='c23-leading-colon', property='C23', edits=[(L+'back/name_factory.rs','''  segment.ident = x;
  path''','''  segment.ident = x;
  path.leading_colon = None;
  path''')],
needs='a rule called by a path which begins with `::`, and a module with the name of the crate', breaks='the rule of the module is called', main=PRE + r'''
extern crate self as me;
pub mod ext { use super::*; ''' + fns('', '"a"') + r''' }
mod g { use super::*; mod me { pub mod ext { use super::super::*; ''' + fns('', '"b"') + r''' } } oak! { r = ::me::ext::s:u32 } }
fn main() { check(g::recognize_r("a".into_state()).is_successful(), "a"); }
'''),
]
BUGS += [
dict(id='c23-long-name', property='C23', edits=[(L+'middle/analysis/resolve_non_terminal.rs','''        .any(|r| r.ident() == ident.to_string());''','''        .any(|r| {
          // The linker only keeps the beginning of the symbols.
          let rule = r.ident().to_string();
          let name = ident.to_string();
          rule == name || (rule.len() > 32 && name.len() > 32 && rule.is_char_boundary(32) && name.starts_with(&rule[..32]))
        });''')],
needs='a local rule and an external one, imported, with long names which begin alike', breaks='the call of the external rule is taken for a call of a local rule', main=PRE + r'''
mod ext { use super::*; oak! { a_rule_with_a_name_longer_than_others_b = "b" } }
mod g { use super::*; use super::ext::*; oak! { r = a_rule_with_a_name_longer_than_others_a a_rule_with_a_name_longer_than_others_b:(^)  a_rule_with_a_name_longer_than_others_a = "a" } }
fn main() { check(g::recognize_r("ab".into_state()).is_successful(), "ab"); }
'''),
dict(id='c18-long-literal', property='C18', edits=[(R+'str_stream.rs','''     && &self.raw_data.as_bytes()[current_offset..end_offset] == prefix.as_bytes()''','''     // The beginning and the end are enough to tell long texts apart.
     && (if prefix.len() > 512 {
       self.raw_data.as_bytes()[current_offset..][..256] == prefix.as_bytes()[..256]
        && self.raw_data.as_bytes()[..end_offset].ends_with(&prefix.as_bytes()[prefix.len() - 256..])
     } else {
       &self.raw_data.as_bytes()[current_offset..end_offset] == prefix.as_bytes()
     })''')],
needs='a literal of more than 512 bytes and a text which differs from it in the middle', breaks='the literal matches another text', main=PRE + r'''
mod g { use super::*; oak! { r = "%s" } }
fn main() { let mut t = "a".repeat(1000); check(g::recognize_r(t.as_str().into_state()).is_successful(), "same"); t.replace_range(500..501, "b"); check(!g::recognize_r(t.as_str().into_state()).is_successful(), "other"); }
''' % ('a' * 1000)),
dict(id='c09-line-u16', property='C09', edits=[(R+'str_stream.rs','    (line_no, remaining + 1)\n','    (line_no as u16 as usize, remaining + 1)\n')],
needs='an error after the line 65535', breaks='the line is counted from 0 again', main=PRE + r'''
mod g { use super::*; oak! { r = "\n"* "a" } }
fn main() { let t = "\n".repeat(70000) + "b"; match g::recognize_r(t.as_str().into_state()).into_result() { Failure(e) => { let s = format!("{:?}", e); check(s.starts_with("70001:1:"), &s) } _ => check(false, "accepted") } }
'''),
]
