//! Rust items written in a grammar.
use crate::checks5::perms;
use crate::gens::*;
use crate::infra::*;
use crate::model::*;
use crate::probe::*;

/// An item, `@` stands for its number; what is observed of it from inside the module of the grammar, and from outside, and the values.
struct Item { decl: &'static str, inside: &'static str, value: &'static str, outside: &'static str, ovalue: &'static str,
    /// begins with an identifier, as a rule does: only at the start or after another item
    word: bool }

const fn it(decl: &'static str, inside: &'static str, value: &'static str, outside: &'static str, ovalue: &'static str) -> Item { Item { decl, inside, value, outside, ovalue, word: false } }
const fn wd(decl: &'static str, inside: &'static str, value: &'static str, outside: &'static str, ovalue: &'static str) -> Item { Item { decl, inside, value, outside, ovalue, word: true } }

const ITEMS: &[Item] = &[
    it("fn f@() -> u32 { 1@ }", "f@()", "1@", "f@()", "alt"),
    it("pub fn f@(x: char) -> String { format!(\"f@{}\", x) }", "f@('a')", "f@a", "gr::f@('b')", "f@b"),
    it("pub(crate) fn f@<T: Clone>(x: &T) -> (T, T) where T: PartialEq { (x.clone(), x.clone()) }", "f@(&1)", "(1, 1)", "gr::f@(&'c')", "('c', 'c')"),
    it("/// Doc.\n #[inline] #[allow(unused_variables)] pub fn f@(a: u8, b: u8) -> u8 { /* = */ a }", "f@(2, 3)", "2", "gr::f@(4, 5)", "4"),
    it("#[cfg(any())] pub fn f@() -> u32 { compile_error!(\"kept\") }", "f@()", "alt", "f@()", "alt"),
    it("#[cfg(not(any()))] pub fn f@() -> u32 { 3 }", "f@()", "3", "gr::f@()", "3"),
    it("const fn f@() -> usize { 2 }", "{ const N: usize = f@(); N }", "2", "f@()", "alt"),
    it("pub const unsafe fn f@() -> usize { 4 }", "unsafe { const N: usize = unsafe { f@() }; N }", "4", "unsafe { gr::f@() }", "4"),
    it("pub unsafe fn f@(x: *const u8) -> u8 { *x }", "unsafe { f@(&7) }", "7", "{ let f: unsafe fn(*const u8) -> u8 = gr::f@; unsafe { f(&8) } }", "8"),
    it("pub extern \"C\" fn f@(x: i32) -> i32 { x + 1 }", "f@(1)", "2", "{ let f: extern \"C\" fn(i32) -> i32 = gr::f@; f(2) }", "3"),
    it("pub fn f@<'a>(x: &'a str, y: &'a str) -> impl Iterator<Item = &'a str> { vec![x, y].into_iter() }", "f@(\"a\", \"b\").count()", "2", "gr::f@(\"a\", \"b\").last()", "Some(\"b\")"),
    it("fn f@() -> u32 { fn r() -> u32 { 5 } struct Q; impl Q { fn s(&self) -> u32 { r() } } Q.s() }", "f@()", "5", "f@()", "alt"),
    it("pub fn f@(x: &str) -> bool { let r = recognize_r(x.into_state()).into_result(); match r { ParseResult::Failure(_) => false, _ => true } }", "f@(\"aaa\")", "true", "gr::f@(\"aaaa\")", "true"),
    it("#[must_use] fn f@((a, b): (u8, u8), [c, _]: [u8; 2], _: ()) -> u8 { a * b * c }", "f@((2, 3), [4, 5], ())", "24", "f@()", "alt"),
    // the glob import of a private function hides nothing of the prelude
    it("fn drop(x: u8) -> u8 { x + 1 }", "drop(1)", "2", "drop(1u8)", "()"),
    it("pub fn drop(x: u8) -> u8 { x + 2 }", "drop(1)", "3", "drop(1u8)", "3"),
    it("#[allow(dead_code)] pub(super) fn drop(x: u8) -> u8 { x + 3 }", "drop(1)", "4", "drop(1u8)", "4"),
    it("#[inline] pub(self) fn drop(x: u8) -> u8 { x + 4 }", "drop(1)", "5", "drop(1u8)", "()"),
    // the alias of the stream is an item as any other
    it("pub type Stream<'a> = StrStream<'a>;", "{ let s: ParseState<Stream<'static>, ()> = \"a\".into_state(); s.mark().bytes_offset() }", "0", "{ let s: ParseState<gr::Stream<'static>, ()> = \"b\".into_state(); s.mark().has_next() }", "true"),
    it("/// Doc.\n #[allow(dead_code)] pub type Stream<'s> = super::super::rt::StrStream<'s>;", "{ let s: ParseState<Stream, ()> = \"\".into_state(); s.mark().has_next() }", "false", "{ let s: ParseState<gr::Stream<'static>, ()> = \"b\".into_state(); s.mark().bytes_offset() }", "0"),
    it("#[allow(dead_code)] pub type A@ = u32;", "A@::max_value()", "4294967295", "{ let x: gr::A@ = 1; x }", "1"),
    it("const K@: u32 = 4@;", "K@", "4@", "C@", "0"),
    it("pub const K@: &'static [&'static str] = &[\"a = b\", \"c\"];", "K@", "[\"a = b\", \"c\"]", "gr::K@.len()", "2"),
    it("pub static S@: [u8; 3] = [1, 2, 3];", "S@", "[1, 2, 3]", "gr::S@[1]", "2"),
    it("static mut S@: u32 = 5;", "unsafe { *&raw_of!(S@) }", "5", "C@", "0"),
    it("pub struct T@;", "std::mem::size_of::<T@>()", "0", "{ let _ = gr::T@; 1 }", "1"),
    it("#[derive(Debug, Clone, PartialEq, Default)] pub struct T@ { pub a: u8, b: Option<char> }", "T@ { a: 1, b: Some('x') }", "T@ { a: 1, b: Some('x') }", "{ let x = gr::T@::default(); (x.a, x.clone() == x) }", "(0, true)"),
    it("#[derive(Debug)] pub struct T@<T>(pub T, ::std::marker::PhantomData<T>) where T: Copy;", "T@(1, ::std::marker::PhantomData).0", "1", "std::mem::size_of::<gr::T@<u16>>()", "2"),
    it("#[repr(u8)] #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] pub enum E@ { A = 3, B, C = 9 }", "E@::B", "B", "(gr::E@::B as u8, gr::E@::A < gr::E@::C)", "(4, true)"),
    it("#[derive(Debug)] pub enum E@<'a, T: 'a> { A, B(&'a T, u8), C { x: T } }", "E@::B(&'x', 2)", "B('x', 2)", "{ let e: gr::E@<u8> = gr::E@::C { x: 1 }; e }", "C { x: 1 }"),
    it("type A@ = Vec<Option<u8>>;", "A@::new()", "[]", "C@", "0"),
    it("pub type A@<'a, T> = Result<&'a T, ()>;", "{ let x: A@<u8> = Ok(&1); x }", "Ok(1)", "{ let x: gr::A@<char> = Err(()); x }", "Err(())"),
    it("pub trait R@ { const N: u8 = 3; type O; fn g(&self) -> Self::O; fn h(&self) -> u8 { Self::N } } impl R@ for char { type O = u32; fn g(&self) -> u32 { *self as u32 } } impl<'a> R@ for &'a str { const N: u8 = 5; type O = usize; fn g(&self) -> usize { self.len() } }", "('a'.g(), \"b\".g(), R@::h(&'a'))", "(97, 1, 3)", "{ use self::gr::R@ as Q; (Q::g(&'b'), Q::h(&\"\")) }", "(98, 5)"),
    it("pub struct T@(u8); impl T@ { pub const N: u8 = 6; pub fn new() -> Self { T@(Self::N) } fn get(&self) -> u8 { self.0 } } impl std::fmt::Debug for T@ { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, \"<{}>\", self.get()) } }", "T@::new().get()", "6", "gr::T@::new()", "<6>"),
    it("pub struct T@(pub u8); impl std::ops::Add for T@ { type Output = u8; fn add(self, o: T@) -> u8 { self.0 + o.0 } } impl Drop for T@ { fn drop(&mut self) {} }", "T@(1) + T@(2)", "3", "gr::T@(3) + gr::T@(4)", "7"),
    it("use std::collections::BTreeMap as M@;", "{ let mut m = M@::new(); m.insert(1, 2); m }", "{1: 2}", "C@", "0"),
    it("pub use std::cmp::{max as x@, Ordering::{self as O@, *}};", "(x@(1, 2), O@::Less)", "(2, Less)", "(gr::x@(3, 1), gr::O@::Equal)", "(3, Equal)"),
    it("pub mod m@ { pub fn f() -> u32 { super::super::base() + 1@ } pub mod n { pub const R: &str = \"r = .\"; } }", "(m@::f() > 0, m@::n::R)", "(true, \"r = .\")", "gr::m@::n::R", "r = ."),
    it("mod m@ { use super::*; pub fn p(x: &str) -> bool { recognize_r(x.into_state()).is_successful() } }", "(m@::p(\"aaa\"), m@::p(\"aaaa\"))", "(true, true)", "C@", "0"),
    it("extern \"C\" { fn abs(x: i32) -> i32; #[link_name = \"labs\"] pub fn l@(x: i64) -> i64; }", "unsafe { l@(-4) }", "4", "unsafe { gr::l@(-5) }", "5"),
    it("extern crate std as st@;", "self::st@::cmp::min(4, 3)", "3", "C@", "0"),
    it("unsafe trait R@ {} unsafe impl R@ for u8 {} #[allow(non_camel_case_types)] pub struct t@(pub u16); unsafe impl Send for t@ {}", "t@(1).0", "1", "gr::t@(2).0", "2"),
    it("#[macro_use] mod m@ { macro_rules! q@ { ($x:expr) => { $x * 2 } } }", "q@!(4)", "8", "C@", "0"),
    it("#[allow(unused_macros)] macro_rules! q@ { () => { 1 }; ($($x:ident = $y:tt),* / $z:ty) => { (stringify!($($x)*), [$($y),*], std::mem::size_of::<$z>()) } }", "q@!(a = 1, b = 2 / u16)", "(\"a b\", [1, 2], 2)", "C@", "0"),
    wd("macro_rules! q@ { (r = $x:tt) => { concat!($x, \"!\") } } pub const K@: &str = q@!(r = \"a\");", "q@!(r = \"b\")", "b!", "gr::K@", "a!"),
    wd("macro_rules! q@ { () => { 1 } } const K@: u8 = q@!(); macro_rules! q@ { () => { 2 } } pub const L@: u8 = q@!();", "(K@, q@!())", "(1, 2)", "gr::L@", "2"),
    wd("thread_local! { static S@: std::cell::Cell<u8> = std::cell::Cell::new(3); }", "S@.with(|x| x.get())", "3", "C@", "0"),
    wd("union U@ { a: u8, pub b: [u8; 2] }", "unsafe { U@ { b: [1, 1] }.a }", "1", "C@", "0"),
];

const REST: &str = "pub fn base() -> u32 { 0 }";

/// The text of the item number k of the list, under number n.
fn at(s: &str, n: usize) -> String { s.replace('@', &n.to_string()) }

/// The items (kind, place), among the rules of the grammar in the order `order`; None if an item cannot be at its place.
fn place(c: &Case, list: &[(usize, usize)], order: &[usize]) -> Option<Case> {
    let parts = crate::checks5::items_of(c).into_iter().filter(|x| !x.is_empty()).collect::<Vec<_>>();
    let mut v: Vec<(bool, String)> = vec![];
    for p in 0..=parts.len() {
        for (n, (k, q)) in list.iter().enumerate() { if *q == p {
            // after a rule, a word would be called
            if ITEMS[*k].word && v.last().map_or(false, |x: &(bool, String)| x.0) { return None; }
            v.push((false, at(ITEMS[*k].decl, n)));
        } }
        if p < parts.len() { let s = &parts[order[p]]; v.push((!s.starts_with("pub fn") && !s.starts_with("fn") && !s.starts_with("#["), s.clone())); }
    }
    let mut c = c.clone();
    c.text = Some(v.into_iter().map(|x| x.1).collect::<Vec<_>>().join(" "));
    let (mut alt, mut ins, mut outs, mut want) = (String::new(), vec![], vec![], vec![]);
    for (n, (k, _)) in list.iter().enumerate() {
        let i = &ITEMS[*k];
        alt.push_str(&format!("pub fn f{n}() -> &'static str {{ \"alt\" }} pub const C{n}: u8 = 0; ", n = n));
        ins.push(at(i.inside, n));
        outs.push(at(i.outside, n));
        want.push(at(i.value, n));
        want.push(at(i.ovalue, n));
    }
    c.pre = format!("{} pub mod alt {{ {} }} pub use self::alt::*; pub mod sh {{ pub fn sh<T: ::std::fmt::Debug>(x: T) -> String {{ let s = format!(\"{{:?}}\", x); if s.starts_with('\"') {{ s[1..s.len() - 1].to_string() }} else {{ s }} }} }} macro_rules! raw_of {{ ($x:ident) => {{ *std::ptr::addr_of!($x) }} }} pub mod gr {{ use super::super::rt::*; use oak::oak; use super::alt::*;", REST, alt);
    let a = c.arena().0;
    let ty = a.ty_of_rule(0).rust();
    c.go = Some(format!("pub fn see() -> Vec<String> {{ vec![{}] }} pub fn run<'a>(i: &'a str) -> String {{ obs::<{}>(i, recognize_r, parse_r) }} }} #[allow(unused_imports)] use self::gr::*; pub fn go(i: &str) -> String {{ let a = gr::see(); let b: Vec<String> = vec![{}]; let mut o = gr::run(i); for (x, y) in a.iter().zip(&b) {{ o.push('\\t'); o.push_str(x); o.push('\\t'); o.push_str(y); }} o }}",
        ins.iter().map(|x| format!("sh::sh({})", x)).collect::<Vec<_>>().join(", ").replace("sh::sh", "super::sh::sh"), ty, outs.iter().map(|x| format!("sh::sh({})", x)).collect::<Vec<_>>().join(", ")));
    c.tag = want.join("\t");
    Some(c)
}

pub fn c31(ctx: &Ctx) {
    ctx.assume("The Rust parser, rustc and the semantics of Rust items are trusted: the observations of an item outside of any grammar are the values expected.");
    let t = ctx.thorough;
    let mut grams = vec![
        gram(vec![("r", act(plus(cls("ab")), "?"))]),
        gram(vec![("r", seq(vec![E::Nt(1), opt(act(cls("b"), "?"))])), ("s", cls("a"))]),
        gram(vec![("r", cho(vec![act(seq(vec![cls("a"), E::Any]), "?"), act(E::Nt(1), "?")])), ("s", star(cls("ab"))), ]),
        gram(vec![("r", seq(vec![lit("a"), not(E::Nt(1))])), ("s", seq(vec![E::Nt(2), lit("b")])), ("t", opt(lit("a")))]),
    ];
    for g in grams.iter_mut() { number_actions(g); }
    grams.push(gram(vec![("r", opt(lit("a")))]));
    let base: Vec<Case> = grams.into_iter().filter_map(|g| crate::checks3::inferred(Case::new(g, 0, ALL))).collect();
    let mut run: Vec<Case> = vec![];
    let n = ITEMS.len();
    let mut tried = 0usize;
    for (gi, c) in base.iter().enumerate() {
        let m = crate::checks5::items_of(c).into_iter().filter(|x| !x.is_empty()).count();
        let orders = perms(m);
        let mut add = |l: &[(usize, usize)], o: &[usize], run: &mut Vec<Case>| { if once(l.to_vec()).len() < l.len() || l.iter().any(|x| x.1 > m) { return; } if let Some(x) = place(c, l, o) { run.push(x); } };
        // each item at each place, among the rules in each order
        for k in 0..n { for p in 0..=m { for (j, o) in orders.iter().enumerate() { if !t && (k + p + j + gi) % orders.len().max(2) != 0 && orders.len() > 1 { continue; } add(&[(k, p)], o, &mut run); } } }
        // two items, next to each other or apart
        for a in 0..n { for b in 0..n { for p in 0..=m { for q in p..=m {
            tried += 1;
            if !t && (a * 7 + b * 3 + p * 5 + q + gi) % (11 * orders.len().min(3)) != 0 { continue; }
            add(&[(a, p), (b, q)], &orders[(a + b + p) % orders.len()], &mut run);
        } } } }
        // many of them
        for s in 0..n { for p in [n, 5, 3] {
            if !t && (s + p + gi) % 9 != 0 { continue; }
            let l: Vec<(usize, usize)> = (0..n.min(p * 3)).map(|i| ((i * p + s) % n, if p == n { 0 } else { i % (m + 1) })).collect();
            let l: Vec<(usize, usize)> = if p == n { (0..n).map(|i| ((i + s) % n, 0)).collect() } else { l };
            // a name is imported once
            add(&once(l), &orders[s % orders.len()], &mut run);
        } }
    }
    let _ = tried;
    let cmp = |c: &Case, g: &G, i: &str, col: &[&str], k: &mut Count| -> Option<String> {
        if col.len() < 11 { return Some(format!("answers {:?}", col)); }
        let want: Vec<&str> = c.tag.split('\t').collect();
        for (x, w) in col[11..].iter().zip(&want) { if x != w { return Some(format!("an item of the grammar gives {} but, as it is written, must give {}", x, w)); } }
        if col.len() - 11 != want.len() { return Some(format!("answers {:?}", &col[11..])); }
        against_model(c, g, i, &col[..11], k)
    };
    ctx.note("items_placed", crate::json::J::Num(run.len() as f64));
    run_cases(ctx, &run, &[std_inputs(2)], Opts { cmp: Some(&cmp), ..Opts::default() });
}

/// Without what may be declared only once in a module.
fn once(l: Vec<(usize, usize)>) -> Vec<(usize, usize)> {
    let mut seen = std::collections::BTreeSet::new();
    l.into_iter().filter(|x| match ["Ordering", "fn abs", "impl R@", "fn drop(x: u8)", "type Stream"].iter().position(|w| ITEMS[x.0].decl.contains(w)) { Some(w) => seen.insert(w), None => true }).collect()
}

// ---------------------------------------------------------------------------------------------
// The steps of a parse

/// The terminals tried and the actions called, in order, by the semantics.
pub fn steps(c: &Case, g: &G, input: &str, parse: bool) -> Option<Vec<String>> {
    let mut e = Ev::new(g, input);
    e.steps = true;
    e.run_rule(c.rule, 0, parse).ok()?;
    Some(e.log)
}

pub fn c32(ctx: &Ctx) {
    use crate::checks::*;
    ctx.assume(SEM);
    let t = ctx.thorough;
    let m = R | P | AGREE;
    let mut v = result_families(t, m);
    v.extend(cases(fam_core(if t { 6 } else { 5 }), 0, m));
    v.extend(cases(fam_wrap(&small_exprs(3), if t { 3 } else { 2 }, W_ACT), 0, m));
    v.extend(cases(fam_wrap(&value_exprs(3), 2, W_ALL), 0, m));
    v.extend(cases(fam_lits(if t { 4 } else { 3 }), 1, m));
    v.extend(cases(fam_typed(if t { 5 } else { 4 }), 0, m));
    v.extend(cases(fam_deep(t), 2, m));
    // rules nested in one another: a branch tried twice would show at each level
    for n in if t { vec![1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 26, 27, 40] } else { vec![1, 2, 3, 5, 8, 12, 20] } {
        for k in 0..6 {
            // the recursion limit of rustc on nested Vec
            if k == 4 && n > 20 { continue; }
            let mut rules: Vec<(String, E)> = vec![];
            for i in 0..n {
                let x = E::Nt(i + 1);
                rules.push((if i == 0 { "r".into() } else { format!("x{}", i) }, match k {
                    0 => cho(vec![seq(vec![x, lit("b")]), cls("b")]),
                    1 => seq(vec![opt(x), cls("b")]),
                    2 => cho(vec![act(seq(vec![x, cls("b")]), "?"), act(cls("b"), "?")]),
                    3 => seq(vec![not(seq(vec![asc(x, "(^)"), lit("bb")])), E::Any]),
                    4 => seq(vec![star(seq(vec![lit("b"), x])), cls("a")]),
                    _ => cho(vec![rng(seq(vec![asc(x, "()"), E::Any])), rng(lit("b"))]),
                }));
            }
            rules.push(("z".into(), if k == 2 { act(cls("a"), "?") } else { cls("a") }));
            let mut g = gram(rules.iter().map(|(n, e)| (&n[..], e.clone())).collect());
            number_actions(&mut g);
            v.extend(crate::checks3::inferred(Case::new(g, 2, m)));
        }
    }
    let v: Vec<Case> = dedup_cases(keep_valid(v)).into_iter().filter(|c| !has(c, |e| matches!(e, E::Spn(_)))).map(|c| on_stream(c, "pub type Stream<'a> = StepStream<'a>;", "Range<Stream<'a>>", "", "obs_steps(i, recognize_r, parse_r)")).collect();
    let cmp = |c: &Case, g: &G, i: &str, col: &[&str], k: &mut Count| -> Option<String> {
        if let Some(d) = against_model(c, g, i, col, k) { return Some(d); }
        for (name, x, parse) in [("recognizer", col[9], false), ("parser", col[10], true)] {
            let w = match steps(c, g, i, parse) { Some(w) => w.join(";"), None => return Some("the reference semantics diverges".into()) };
            if x != w { return Some(format!("the {} goes through [{}] but must go through [{}]", name, x, w)); }
        }
        None
    };
    let mut long = std_inputs(3);
    for n in [5usize, 9, 13] { for p in ["a", "b", "ab", "ba"] { for e in ["", "a", "b", "c"] { long.push(p.repeat(n) + e); } } }
    for n in [3usize, 8, 21] { long.push("a".to_string() + &"b".repeat(n)); long.push("b".repeat(n) + &"a".repeat(n)); }
    ctx.note("step_sequences_compared", crate::json::J::Num((v.len() * 2) as f64));
    run_cases(ctx, &v, &[std_inputs(if t { 5 } else { 4 }), lit_inputs(), long], Opts { cmp: Some(&cmp), extra: include_str!("../../probes/streams.rs"), ..Opts::default() });
}
