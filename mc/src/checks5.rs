//! Checks of what must not matter: where a rule is declared, in which order, under which name, how many there are.
use crate::checks::*;
use crate::checks3::*;
use crate::checks4::honest;
use crate::gens::*;
use crate::infra::*;
use crate::model::*;
use crate::probe::*;
use crate::typing::infer;
use std::collections::BTreeSet;

// ---------------------------------------------------------------------------------------------
// Rules in other modules

/// The text of the rules in `own`, with the functions they call.
fn text_of(g: &Gram, a: &G, own: &[bool]) -> String {
    let mut m = g.clone();
    for (i, r) in m.rules.iter_mut().enumerate() { r.external = !own[i]; }
    let mut s = m.render();
    let mut names: BTreeSet<String> = BTreeSet::new();
    for (i, o) in own.iter().enumerate() { if *o { for n in a.tree(a.roots[i]) { if let K::Act(_, x) = &a.nodes[n].k { names.insert(x.name.clone()); } } } }
    for (n, d, known) in a.action_decls() { if known && names.contains(&n) { s.push(' '); s.push_str(&d); } }
    s
}

/// Main module and `ext`: the ways of naming a rule of the other module, and what `use` they need.
const FORMS: &[(&str, &str, bool)] = &[("ext::", "super::", false), ("self::ext::", "self::super::", false), ("", "", true)];

/// The rules of `out` are moved to the module `ext`. `plain`: the calls are not ascribed.
fn split(c: &Case, out: &[bool], form: usize, plain: bool) -> Option<Case> {
    let (mut a0, _) = c.arena();
    let v = infer(&mut a0);
    if !v.ok() || v.gray { return None; }
    let g = &c.g;
    if plain && reach(g).iter().enumerate().any(|(i, x)| x.contains(&i)) { return None; }
    let (to_ext, to_main, by_use) = FORMS[form];
    let mut called: BTreeSet<usize> = BTreeSet::new();
    fn go(e: &E, me: bool, out: &[bool], a0: &G, names: &[String], f: (&str, &str), plain: bool, called: &mut BTreeSet<usize>) -> E {
        match e {
            E::Nt(j) if out[*j] != me => {
                called.insert(*j);
                let call = E::Ext(*j, format!("{}{}", if out[*j] { f.0 } else { f.1 }, names[*j]));
                if plain { return call; }
                let t = a0.ty_of_rule(*j);
                asc(call, &match t { T::Inv => "(^)".to_string(), T::Unit => "()".to_string(), t => t.rust() })
            }
            e => e.map_children(&mut |x| go(x, me, out, a0, names, f, plain, called)),
        }
    }
    let names = g.names();
    let mut n = g.clone();
    for (i, r) in n.rules.iter_mut().enumerate() { r.e = go(&g.rules[i].e, out[i], out, &a0, &names, (to_ext, to_main), plain, &mut called); }
    if called.is_empty() { return None; }
    let main: Vec<bool> = out.iter().map(|x| !x).collect();
    // each module is accepted
    for own in [&main[..], out] {
        let mut m = n.clone();
        for (i, r) in m.rules.iter_mut().enumerate() { r.external = !own[i]; }
        let mut a = G::new(&m);
        let v = infer(&mut a);
        if !v.ok() || v.gray || well_formed(&a).is_err() || a.nodes.iter().any(|n| matches!(n.ty, Some(Err(_)))) || !a.rust_choices() { return None; }
    }
    for (i, r) in n.rules.iter_mut().enumerate() { r.external = out[i]; }
    let mut c = Case::new(n.clone(), c.set, ALL);
    c = inferred(c)?;
    let (a, _) = c.arena();
    // the ascriptions tell the truth
    for x in &a.nodes { if let K::Asc(k, t) = &x.k { if let K::Nt(j) = a.nodes[*k].k { if a.nodes[*k].ext && !asc_ty(t).unit_kind() && a.ty_of_rule(j).rust() != *t { return None; } } } }
    c.text = Some(text_of(&n, &a, &main));
    let uses: String = if by_use { called.iter().filter(|j| out[**j]).map(|j| format!("use self::ext::{{recognize_{n}, parse_{n}}}; ", n = names[*j])).collect() } else { String::new() };
    c.pre = format!("pub mod ext {{ use super::*; oak! {{ {} }} }} {}", text_of(&n, &a, out), uses);
    let at = if out[0] { "ext::" } else { "" };
    c.go = Some(format!("pub fn go(i: &str) -> String {{ obs(i, {p}recognize_{n}, {p}parse_{n}) }}", p = at, n = names[0]));
    Some(c)
}

fn splits_of(v: &[Case], plain: bool) -> Vec<Case> {
    let mut r = vec![];
    for (i, c) in v.iter().enumerate() {
        let n = c.g.rules.len();
        for sel in 1..(1u32 << n) - 1 {
            let out: Vec<bool> = (0..n).map(|k| sel >> k & 1 == 1).collect();
            if let Some(c) = split(c, &out, (i + sel as usize) % FORMS.len(), plain) { r.push(c); }
        }
    }
    r
}

/// Functions written by hand: what they do, as an expression, and their type and text.
fn by_hand() -> Vec<(E, &'static str, String)> {
    let two = |ty: &str, rec: &str, par: &str| format!("pub fn recognize_s<'a>(mut state: ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, ()> {{ {} }} pub fn parse_s<'a>(mut state: ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, {}> {{ {} }}", rec, ty, par);
    let class = |ok: &str, ko: &str| format!("let m = state.mark(); match state.next() {{ Some(c) if c == 'a' || c == 'b' => state.success({}), _ => {{ let mut s = state.restore(m); s.error(\"[\\\"ab\\\"]\"); s.{} }} }}", ok, ko);
    let lit2 = "if state.consume_prefix(\"ab\") { state.success(()) } else { state.error(\"ab\"); state.failure() }";
    let pair = |val: &str| format!("let m = state.mark(); let c = match state.next() {{ Some('a') => 'a', _ => {{ let mut s = state.restore(m); s.error(\"[\\\"a\\\"]\"); return s.failure() }} }}; let m = state.mark(); match state.next() {{ Some('b') => state.success({}), _ => {{ let mut s = state.restore(m); s.error(\"[\\\"b\\\"]\"); s.failed = false; s.success({}) }} }}", val, val.replace("Some('b')", "None"));
    let list = |push: &str, val: &str| format!("let mut v: Vec<char> = vec![]; loop {{ let m = state.mark(); match state.next() {{ Some(c) if c == 'a' => {{ {} }} _ => {{ state = state.restore(m); state.error(\"[\\\"a\\\"]\"); break }} }} }} if v.len() == 0 {{ return state.failure() }} state.failed = false; state.success({})", push, val);
    vec![
        (lit("ab"), "(^)", two("()", lit2, lit2)),
        // a recognizer which gives back the state it was given
        (lit("ab"), "()", two("()", "if state.consume_prefix(\"ab\") { state } else { state.error(\"ab\"); state.failure() }", lit2)),
        (cls("ab"), "char", two("char", &class("()", "failure()"), &class("c", "failure()"))),
        (seq(vec![cls("a"), opt(cls("b"))]), "(char, Option<char>)", two("(char, Option<char>)", &pair("{ let _ = c; }"), &pair("(c, Some('b'))"))),
        (plus(cls("a")), "Vec<char>", two("Vec<char>", &list("v.push(c)", "()"), &list("v.push(c)", "v"))),
        // through rules of the grammar
        (seq(vec![lit("a"), E::Ext(2, "super::t".into()), lit("b")]), "V", two("V",
            "if !state.consume_prefix(\"a\") { state.error(\"a\"); return state.failure() } let mut s = super::recognize_t(state); if s.is_failed() { return s.failure() } s.discard_data(); if s.consume_prefix(\"b\") { s.success(()) } else { s.error(\"b\"); s.failure() }",
            "if !state.consume_prefix(\"a\") { state.error(\"a\"); return state.failure() } let s = super::parse_t(state); if s.is_failed() { return s.failure() } let (mut s, v) = s.extract_data(); if s.consume_prefix(\"b\") { s.success(v) } else { s.error(\"b\"); s.failure() }")),
    ]
}

/// A parser of the character `c`.
fn char_fns(sig: &str, c: &str, what: &str) -> String {
    let f = |ok: &str| format!("{{ let m = state.mark(); match state.next() {{ Some(c) if c == {c} => state.success({ok}), _ => {{ let mut s = state.restore(m); s.error({w}); s.failure() }} }} }}", c = c, w = what, ok = ok);
    format!("pub fn recognize_s<'a{sig}>(mut state: ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, ()> {} pub fn parse_s<'a{sig}>(mut state: ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, char> {}", f("()"), f("c"), sig = sig)
}

/// Two external rules, which differ only by something of their path: the segments before the last one, how it starts, its generic arguments.
/// The first one matches `a` and the second one `b`; every other place where such a path could lead has decoys.
fn paths() -> Vec<(String, String, String)> {
    let one = |c: &str| char_fns("", &format!("'{}'", c), &format!("\"[\\\"{}\\\"]\"", c));
    let mut v = vec![];
    let mut go = |a: &str, b: &str, pre: &str| v.push((a.to_string(), b.to_string(), pre.to_string()));
    // generic arguments
    let tr = "pub trait Tr { const C: char; const W: &'static str; } pub struct A; pub struct B; impl Tr for A { const C: char = 'a'; const W: &'static str = \"[\\\"a\\\"]\"; } impl Tr for B { const C: char = 'b'; const W: &'static str = \"[\\\"b\\\"]\"; }";
    let gen = format!("pub mod ext {{ use super::*; {} {} }} use self::ext::{{A, B}};", tr, char_fns(", T: Tr", "T::C", "T::W"));
    go("ext::s::<A>", "ext::s::<B>", &gen);
    go("ext::s::<ext::A>", "self::ext::s::<super::MOD_ID::ext::B>", &gen);
    go("s::<A>", "s::<B>", &format!("{} use self::ext::*;", gen));
    let gen2 = gen.replace("pub struct A;", "pub struct A; impl<X> Tr for Vec<X> { const C: char = 'a'; const W: &'static str = \"[\\\"a\\\"]\"; } impl<X, Y> Tr for (X, Y) { const C: char = 'b'; const W: &'static str = \"[\\\"b\\\"]\"; }");
    go("ext::s::<Vec<ext::A>>", "ext::s::<(u8, Vec<Vec<u8>>)>", &gen2);
    let two = format!("pub mod ext {{ use super::*; {} {} }} use self::ext::{{A, B}};", tr, char_fns(", T: Tr, U: Tr", "if T::C == 'a' { U::C } else { 'b' }", "if T::C == 'a' { U::W } else { B::W }"));
    go("ext::s::<A, A>", "ext::s::<A, B>", &two);
    go("ext::s::<A, A>", "ext::s::<B, A>", &two);
    let cst = format!("pub mod ext {{ use super::*; {} }}", char_fns(", const N: usize", "if N == 0 { 'a' } else { 'b' }", "if N == 0 { \"[\\\"a\\\"]\" } else { \"[\\\"b\\\"]\" }"));
    go("ext::s::<0>", "ext::s::<1>", &cst);
    // functions of types
    let imp = format!("pub mod ext {{ use super::*; {} pub struct X<T>(T); impl<T: Tr> X<T> {{ {} }} }} pub type XA = ext::X<ext::A>; pub type XB = ext::X<ext::B>; use self::ext::{{A, B, X}};", tr, char_fns("", "T::C", "T::W"));
    go("ext::X::<A>::s", "ext::X::<B>::s", &imp);
    go("X::<ext::A>::s", "X::<ext::B>::s", &imp);
    go("XA::s", "XB::s", &imp);
    go("self::XA::s", "self::ext::X::<self::ext::B>::s", &imp);
    let trt = format!("pub mod ext {{ use super::*; {} pub trait Ps {{ {} }} impl<T: Tr> Ps for T {{ {} }} }} use self::ext::{{A, B, Ps}};", tr,
        "fn recognize_s<'a>(state: ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, ()>; fn parse_s<'a>(state: ParseState<StrStream<'a>, ()>) -> ParseState<StrStream<'a>, char>;", char_fns("", "T::C", "T::W").replace("pub fn", "fn"));
    go("A::s", "B::s", &trt);
    go("ext::A::s", "self::B::s", &trt);
    // where a path starts: everywhere else it would lead to something which answers otherwise
    let ext = |c: &str| format!("pub mod ext {{ use super::*; {} }}", one(c));
    let decoy = format!("pub mod me {{ use super::*; pub mod MOD_ID {{ use super::*; {e} }} {e} }} pub mod MOD_ID {{ use super::*; {e} }}", e = ext("b"));
    let all = format!("{} {}", ext("a"), decoy);
    for a in ["ext::s", "self::ext::s", "super::MOD_ID::ext::s", "self::super::MOD_ID::ext::s", "crate::MOD_ID::ext::s", "::me::MOD_ID::ext::s"] {
        for b in ["MOD_ID::ext::s", "self::MOD_ID::ext::s", "super::MOD_ID::MOD_ID::ext::s", "me::MOD_ID::ext::s", "me::ext::s", "self::me::ext::s", "crate::MOD_ID::MOD_ID::ext::s", "::me::MOD_ID::me::ext::s"] { go(a, b, &all); }
    }
    // the same ends
    let deep = format!("pub mod x {{ use super::*; pub mod y {{ use super::*; {} pub mod x {{ use super::*; {} }} }} {} }} pub mod y {{ use super::*; {} }} {}", one("a"), one("b"), one("b"), one("b"), one("b"));
    for b in ["x::s", "y::s", "x::y::x::s", "self::x::y::x::s", "super::MOD_ID::y::s", "self::s"] { go("x::y::s", b, &deep); }
    // the modules have the names which Oak gives
    let odd = format!("pub mod recognize_ext {{ use super::*; {b} }} pub mod parse_ext {{ use super::*; {b} }} pub mod recognize_s {{ use super::*; {b} pub mod s {{ use super::*; {b} }} }} pub mod parse_s {{ use super::*; {b} }} pub mod s {{ use super::*; {a} }} {e}", a = one("a"), b = one("b"), e = ext("a"));
    for (a, b) in [("ext::s", "recognize_ext::s"), ("s::s", "recognize_s::s"), ("s::s", "parse_s::s"), ("ext::s", "parse_ext::s"), ("s::s", "recognize_s::s::s")] { go(a, b, &odd); }
    // keywords and letters
    let raw = format!("pub mod r#type {{ use super::*; {a} }} pub mod tYpe {{ use super::*; {b} }} pub mod é {{ use super::*; {a} }} pub mod e {{ use super::*; {b} }} pub mod _e {{ use super::*; {b} }}", a = one("a"), b = one("b"));
    for (a, b) in [("r#type::s", "tYpe::s"), ("é::s", "e::s"), ("self::r#type::s", "_e::s")] { go(a, b, &raw); }
    v
}

pub fn c23(ctx: &Ctx) {
    ctx.assume(SEM);
    let t = ctx.thorough;
    // the rules of grammars in every way over two modules
    let mut base: Vec<Case> = fam_two_typed(if t { 4 } else { 3 }).into_iter().chain(fam_two(if t { 4 } else { 3 })).filter_map(|g| inferred(Case::new(g, 0, ALL))).collect();
    let rec: Vec<Case> = rec_typed(false).into_iter().filter(|g| g.rules.len() > 1).enumerate().filter(|(i, g)| t || g.rules.len() > 2 && i % 5 == 0 || i % 23 == 0).filter_map(|(_, g)| inferred(Case::new(g, 0, ALL))).collect();
    base.extend(rec);
    // three rules: a shared one
    let tm: Vec<fn(E, E) -> E> = vec![|a, b| seq(vec![a, b]), |a, b| cho(vec![a, b]), |a, b| seq(vec![opt(a), b]), |a, b| act(seq(vec![a, b]), "?"), |a, b| spn(cho(vec![seq(vec![a.clone(), b.clone()]), seq(vec![b, a])])), |a, b| seq(vec![not(a.clone()), b, star(a)]), |a, b| rng(seq(vec![a, b]))];
    for f in &tm { for h in &tm { for k in [cls("a"), lit("a"), seq(vec![cls("a"), cls("b")]), act(lit("b"), "?"), asc(cls("b"), "()")] {
        let mut g = gram(vec![("r", f(E::Nt(1), E::Nt(2))), ("s", h(cls("b"), E::Nt(2))), ("t", k)]);
        number_actions(&mut g);
        if let Some(c) = inferred(Case::new(g, 0, ALL)) { base.push(c); }
    } } }
    let base = rust_ok(base);
    let mut v = splits_of(&base, false);
    let n = v.len();
    v.extend(splits_of(&base, true));
    ctx.note("split_ascribed", crate::json::J::Num(n as f64));
    ctx.note("split_not_ascribed", crate::json::J::Num((v.len() - n) as f64));
    // functions written by hand
    for (e, ty, text) in by_hand() {
        let sp = Space { un: "?*&!", seq: 2, cho: 2, more: vec![|e| act(e, "?"), spn, rng, |e| asc(e, "()")], ..Space::with(vec![asc(E::Ext(1, "ext::s".into()), ty), lit("b"), cls("a")]) };
        for x in sp.upto(if t { 5 } else { 4 }) {
            fn has(e: &E) -> bool { matches!(e, E::Ext(..)) || e.children().into_iter().any(|c| has(c)) }
            if !has(&x) { continue; }
            let mut g = gram(vec![("r", x), ("s", e.clone()), ("t", act(cls("b"), "?"))]);
            g.rules[1].external = true;
            // the type of the function, whatever the expression says
            if ty == "V" { g.rules[1].asc = Some("V".into()); if let E::Seq(v) = &mut g.rules[1].e { v[1] = asc(v[1].clone(), "V"); } }
            number_actions(&mut g);
            let c = Case::new(g, 0, ALL);
            for mut c in rust_ok(inferred(c).into_iter().collect()) { c.pre = format!("pub mod ext {{ use super::*; {} }}", text); v.push(c); }
        }
    }
    // the same name inside and outside
    let fs: Vec<fn(E, E, E) -> E> = vec![|a, b, _| seq(vec![a, b]), |a, b, _| cho(vec![b, a]), |a, _, c| seq(vec![c, a]), |a, b, c| seq(vec![opt(a), star(b), c]), |a, b, _| seq(vec![not(b), a]), |_, b, c| seq(vec![and(c), b]), |a, b, c| act(seq(vec![a, b, c]), "?"), |a, b, _| spn(seq(vec![b, opt(a)]))];
    let bodies = vec![lit("a"), cls("b"), seq(vec![cls("a"), cls("b")]), act(cls("a"), "?")];
    for f in &fs { for l in &bodies { for x in &bodies {
        let ty = |e: &E| { let mut g = gram1(e.clone()); number_actions(&mut g); let a = Case::new(g, 0, 0).arena().0; match a.ty_of_rule(0) { T::Inv => "(^)".to_string(), t => t.rust() } };
        let mut g = gram(vec![("r", f(E::Nt(1), asc(E::Ext(2, "ext::s".into()), &ty(x)), asc(E::Ext(1, "self::s".into()), &ty(l)))), ("s", l.clone()), ("s", x.clone())]);
        number_actions(&mut g);
        for glob in [false, true] {
            let mut g = g.clone();
            g.rules[2].external = true;
            if let Some(mut c) = inferred(Case::new(g.clone(), 0, ALL)) {
                let a = c.arena().0;
                if a.nodes.iter().any(|n| matches!(n.ty, Some(Err(_)))) || !a.rust_choices() { continue; }
                c.text = Some(text_of(&g, &a, &[true, true, false]));
                c.pre = format!("pub mod ext {{ use super::*; oak! {{ {} }} }} {}", text_of(&g, &a, &[false, false, true]), if glob { "pub mod other { use super::*; oak! { s = \"bbb\" r = \"b\" act0 = \"a\" } } use self::other::*;" } else { "" });
                v.push(c);
            }
        }
    } } }
    // names which look alike inside and outside, imported or by their path
    let pairs = [("n", "N"), ("N", "n"), ("abc", "Abc"), ("abC", "abc"), ("n", "n_"), ("n_", "n"), ("_n", "n"), ("n", "_n"), ("n1", "n"), ("n", "n1"), ("n1", "n01"), ("nn", "n"), ("n", "nn"), ("n", "rn"), ("é", "e"), ("n_a", "na"), ("recognize_n", "n"), ("n", "recognize_n"), ("parse_n", "n"), ("n", "r"), ("ext", "n"), ("n", "ext"), ("crate_", "self_")];
    // long names which differ at one place
    let long: Vec<(String, String)> = [8usize, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300].iter().flat_map(|n| { let w = "long_name_".repeat(40)[..*n].to_string(); vec![(w.clone() + "a", w.clone() + "b"), (w.clone(), w.clone() + "c"), (w.clone() + "d", w.clone()), (format!("a{}", w), format!("b{}", w))] }).collect();
    let pairs: Vec<(&str, &str)> = pairs.into_iter().chain(long.iter().map(|(a, b)| (&a[..], &b[..]))).collect();
    for (pi, (l, x)) in pairs.iter().enumerate() { for (fi, f) in fs.iter().enumerate() { for (bi, b) in bodies.iter().enumerate() { for by_use in [true, false] {
        if !t && (pi + fi + bi) % if l.len() > 16 { 8 } else { 2 } != 0 { continue; }
        if *x == "r" && by_use { continue; }
        let o = if bi % 2 == 0 { cls("b") } else { seq(vec![lit("b"), cls("a")]) };
        let ty = |e: &E| { let mut g = gram1(e.clone()); number_actions(&mut g); let a = Case::new(g, 0, 0).arena().0; match a.ty_of_rule(0) { T::Inv => "(^)".to_string(), t => t.rust() } };
        let path = if by_use { x.to_string() } else { format!("ext::{}", x) };
        let mut g = gram(vec![("r", f(E::Nt(1), asc(E::Ext(2, path), &ty(&o)), E::Nt(1))), (l, b.clone()), (x, o)]);
        number_actions(&mut g);
        g.rules[2].external = true;
        if let Some(mut c) = inferred(Case::new(g.clone(), 0, ALL)) {
            let a = c.arena().0;
            if a.nodes.iter().any(|n| matches!(n.ty, Some(Err(_)))) || !a.rust_choices() { continue; }
            c.text = Some(text_of(&g, &a, &[true, true, false]));
            c.pre = format!("pub mod ext {{ use super::*; oak! {{ {} {} = \"bbbb\" }} }} {}", text_of(&g, &a, &[false, false, true]), if l == x { "other" } else { l }, if by_use { format!("use self::ext::{{recognize_{}, parse_{}}}; ", x, x) } else { String::new() });
            v.push(c);
        }
    } } } }
    // paths of every form
    let fs: Vec<fn(E, E) -> E> = vec![|a, b| seq(vec![a, b]), |a, b| seq(vec![b, a]), |a, b| cho(vec![seq(vec![a.clone(), a.clone()]), seq(vec![a, b])]), |a, b| seq(vec![star(b), plus(a)]), |a, b| act(seq(vec![opt(a.clone()), not(a), b]), "?"), |a, b| spn(seq(vec![a, star(b)])), |a, b| rng(cho(vec![seq(vec![and(a.clone()), a]), b])), |a, b| seq(vec![asc(plus(a), "()"), act(b, "?")])];
    let mut n = 0;
    for (a, b, pre) in paths() { for (fi, f) in fs.iter().enumerate() { for flip in [false, true] {
        if flip && fi < 2 { continue; }
        let (x, y) = (asc(E::Ext(1, a.clone()), "char"), asc(E::Ext(2, b.clone()), "char"));
        let mut g = gram(vec![("r", if flip { f(y, x) } else { f(x, y) }), ("s", cls("a")), ("s", cls("b"))]);
        g.rules[1].external = true;
        g.rules[2].external = true;
        number_actions(&mut g);
        for mut c in rust_ok(inferred(Case::new(g, 0, ALL)).into_iter().collect()) { c.pre = pre.clone(); v.push(c); n += 1; }
    } } }
    ctx.note("path_cases", crate::json::J::Num(n as f64));
    run_cases(ctx, &v, &[std_inputs(if t { 6 } else { 4 })], Opts::default());
}

// ---------------------------------------------------------------------------------------------
// Order, names and layout

/// The rules and the functions of a grammar, as texts.
pub fn items_of(c: &Case) -> Vec<String> {
    let a = c.arena().0;
    let n = c.g.rules.len();
    let mut v = vec![];
    for i in 0..n {
        let mut m = c.g.clone();
        m.items.clear();
        for (k, r) in m.rules.iter_mut().enumerate() { r.external = k != i; }
        v.push(m.render());
    }
    for (_, d, known) in a.action_decls() { if known { v.push(d); } }
    v
}

pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut r = vec![];
    for p in perms(n - 1) { for i in 0..=p.len() { let mut q = p.clone(); q.insert(i, n - 1); r.push(q); } }
    r
}

/// Orders of n items: every one up to 4, rotations of both directions beyond.
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n <= 4 { return perms(n); }
    let mut r = vec![];
    for k in 0..n {
        let p: Vec<usize> = (0..n).map(|i| (i + k) % n).collect();
        let mut q = p.clone();
        q.reverse();
        r.push(p);
        r.push(q);
    }
    r
}

fn rename(c: &Case, rules: &[String], acts: &dyn Fn(&str) -> String) -> Case {
    fn go(e: &E, f: &dyn Fn(&str) -> String) -> E { match e { E::Act(c, a) => E::Act(Box::new(go(c, f)), Action { name: f(&a.name), ..a.clone() }), e => e.map_children(&mut |x| go(x, f)) } }
    let mut c = c.clone();
    for (i, r) in c.g.rules.iter_mut().enumerate() { r.name = rules[i].clone(); r.e = go(&r.e, acts); }
    // its name does not tell what it returns
    c.action_ty.push(("vec".into(), "V".into()));
    let n = rules[c.rule].trim_start_matches("r#").to_string();
    c.go = Some(format!("pub fn go(i: &str) -> String {{ obs(i, recognize_{n}, parse_{n}) }}"));
    c
}

const RULE_NAMES: &[&str] = &["r", "s", "t", "state", "parse", "recognize", "parse_r", "success", "b0", "mark1", "x1", "_r", "R", "self_", "failure", "é", "r#type", "stream", "Stream", "a", "z", "act0", "result", "oak", "Some", "str", "char"];
const ACT_NAMES: &[&str] = &["act0", "b0", "b1", "c0", "c1", "d0", "mark1", "mark2", "counter1", "x", "x1", "result", "success", "failure", "data", "parse", "recognize", "stream", "next", "error", "r", "s", "a", "é", "vec", "push", "self_", "restore", "r#type", "state", "stateful", "stateless"];

/// Attributes of grammars: one warning at each of those which are not known, none for the
/// others, and nothing else changes.
fn attributes(ctx: &Ctx) {
    let t = ctx.thorough;
    let known = ["debug_typing", "show_typing"];
    let unknown = ["unknown", "a::b", "a::b(c)", "foo = \"x\"", "foo(bar, 1)", "allow(unused)", "debug", "Debug_typing", "show_typings", "debug_typing::x", "show::debug_typing", "show", "typing", "debug_typing_", "_", "stream"];
    let unknown: Vec<&str> = unknown.iter().cloned().filter(|x| *x != "_").collect();
    let bodies: [&[&str]; 10] = [
        &["r = \"a\" s", "s = . / ()"], &["r = \"a\"", "s = [\"a-c\"]* > f", "fn f(x: Vec<char>) -> u32 { 0 }"], &["r = s", "s = . r?"],
        &["r = !!\"a\" .", "s = &&r"], &["r = r / \"a\"", "s = \"b\""], &["r = . / \"a\"", "s = r+"], &["r = ((\"a\")*)* ", "s = \"b\""],
        &["fn f(x: char) -> char { x }", "r = . > f", "s = r"], &["use std::fmt", "r = \"a\"", "s = (r?)?"], &["r = \"a\"", "r = \"b\""],
    ];
    let mut texts: Vec<String> = vec![];
    // the unknown attributes of a text, and the text without any
    let mut info: Vec<(Vec<(usize, usize)>, usize)> = vec![];
    for b in bodies.iter() {
        let it: Vec<String> = b.iter().map(|x| if x.starts_with("use") { format!("{};", x) } else { x.to_string() }).collect();
        let plain = texts.len();
        texts.push(it.join(" "));
        info.push((vec![], plain));
        let all: Vec<(&str, bool)> = known.iter().map(|x| (*x, true)).chain(unknown.iter().map(|x| (*x, false))).collect();
        // one attribute, then two, in each of the places
        let mut lists: Vec<Vec<(usize, (&str, bool))>> = vec![];
        for p in 0..it.len() { for a in all.iter() { lists.push(vec![(p, *a)]); } }
        for (i, a) in all.iter().enumerate() { for (j, c) in all.iter().enumerate() {
            for p in 0..it.len() { for q in p..it.len() {
                if t || (i * 7 + j * 3 + p + 2 * q + plain) % 11 == 0 { lists.push(vec![(p, *a), (q, *c)]); }
                if i < 3 && j < 4 && (t || (i + j + p) % 3 == 0) { for e in [0, 2, 4] { lists.push(vec![(p, *a), (q, *c), (q, all[e])]); } }
            } }
        } }
        for l in lists {
            let mut s = String::new();
            let mut at = vec![];
            for (i, x) in it.iter().enumerate() {
                for (p, (a, k)) in l.iter() { if *p == i {
                    if !s.is_empty() { s.push(' '); }
                    let lo = s.len();
                    s.push_str(&format!("#![{}]", a));
                    if !k { at.push((lo, s.len())); }
                } }
                if !s.is_empty() { s.push(' '); }
                s.push_str(x);
            }
            texts.push(s);
            info.push((at, plain));
        }
    }
    let j = verdicts(ctx, &texts);
    for (i, (at, plain)) in info.iter().enumerate() {
        let (x, o) = (&j[i], &j[*plain]);
        if let Verdict::Crash(s) = &x.v { ctx.violation(&texts[i], format!("Oak does not answer: {}", s), texts[i].clone()); continue; }
        // where the grammar is rejected early the attributes may not have been looked at
        if x.v.accepted() != o.v.accepted() { ctx.violation(&texts[i], format!("{}, but without the attributes: {}", x.v.text(), o.v.text()), texts[i].clone()); continue; }
        let un: Vec<Option<(usize, usize)>> = x.warn.iter().zip(x.wspans.iter()).filter(|(w, _)| w.contains("unknown attribute")).map(|w| *w.1).collect();
        if !x.v.accepted() {
            // no more warnings than unknown attributes
            if un.len() > at.len() { ctx.violation(&texts[i], format!("{} warnings of unknown attributes for {}", un.len(), at.len()), texts[i].clone()); }
            continue;
        }
        let mut un: Vec<(usize, usize)> = un.into_iter().map(|u| u.unwrap_or((usize::max_value(), 0))).collect();
        un.sort();
        if un.len() != at.len() || !un.iter().zip(at.iter()).all(|(u, a)| u.0 >= a.0 && u.1 <= a.1) {
            ctx.violation(&texts[i], format!("the unknown attributes are at {:?}, the warnings at {:?}", at, un), texts[i].clone());
        }
        let others = |x: &Judged| { let mut v: Vec<String> = x.warn.iter().filter(|w| !w.contains("unknown attribute")).cloned().collect(); v.sort(); v };
        if others(x) != others(o) { ctx.violation(&texts[i], format!("the other warnings are {:?}, and without the attributes {:?}", others(x), others(o)), texts[i].clone()); }
    }
    ctx.note("attributes_judged", crate::json::J::Num(texts.len() as f64));
    ctx.note("attributes_warned", crate::json::J::Num(j.iter().filter(|x| x.warn.iter().any(|w| w.contains("unknown attribute"))).count() as f64));
    ctx.add(texts.len() as u64, texts.len() as u64, texts.len() as u64);
    ctx.grammars.fetch_add(texts.len() as u64, std::sync::atomic::Ordering::Relaxed);
}

pub fn c22(ctx: &Ctx) {
    ctx.assume(SEM);
    let t = ctx.thorough;
    // what the orders must agree on: grammars of several rules, accepted or not
    let mut gs: Vec<Gram> = rec_typed(t).into_iter().filter(|g| g.rules.len() > 1).enumerate().filter(|(i, g)| t || g.rules.len() > 2 || i % 5 == 0).map(|x| x.1).collect();
    gs.extend(wf_rec(t).into_iter().enumerate().filter(|(i, g)| g.rules.len() > 1 && (t || i % 5 == 0)).map(|x| x.1));
    gs.extend(crate::checks4::typed_space(false).into_iter().enumerate().filter(|(i, g)| g.rules.iter().filter(|r| !r.external).count() > 1 && (t || i % 3 == 0)).map(|x| x.1));
    gs.extend(fam_two_typed(3).into_iter().step_by(if t { 1 } else { 4 }));
    gs.extend(crate::checks6::rounds(t).into_iter().filter(|g| g.rules.iter().all(|r| r.name != "z")).step_by(if t { 1 } else { 2 }));
    let gs = dedup(gs);
    let (mut texts, mut owner) = (vec![], vec![]);
    for (k, g) in gs.iter().enumerate() {
        let mut c = Case::new(g.clone(), 0, 0);
        let mut a = c.arena().0;
        let _ = infer(&mut a);
        c.rule_ty = a.rule_ty.clone();
        let it: Vec<String> = items_of(&c).into_iter().filter(|x| !x.is_empty()).collect();
        let os = orders(it.len());
        let step = if t { 1 } else { (os.len() / 4).max(1) };
        for (j, o) in os.into_iter().enumerate() {
            if j % step != 0 { continue; }
            let mut s = o.iter().map(|i| it[*i].clone()).collect::<Vec<_>>().join(" ");
            // one with something which is not related, before or after
            if j == 0 { for x in [format!("#![debug_typing] {}", s), format!("#![show_typing] {}", s), ["#![unknown]", "#![debug_typing] #![show_typing]", "#![a::b(c)]", "//! doc\n"][k % 4].to_string() + " " + &s, format!("{} #![debug_typing] {}", it[o[0]], o[1..].iter().map(|i| it[*i].clone()).collect::<Vec<_>>().join(" "))].into_iter().skip(if t { 0 } else { 3 * (k % 2) }).take(if t { 9 } else { 2 }) { if it.len() > 1 { texts.push(x); owner.push(k); } } }
            if j == 0 { texts.push(s.clone()); owner.push(k); texts.push(format!("{} un = \"u\"", s)); owner.push(k); for p in 1..it.len() { if t || (k + p) % 2 == 0 { texts.push(o.iter().enumerate().map(|(i, x)| if i == p { format!("un = \"u\" {}", it[*x]) } else { it[*x].clone() }).collect::<Vec<_>>().join(" ")); owner.push(k); } } texts.push(format!("un = \"u\" {}", s)); owner.push(k); texts.push(format!("{} un = (. \"u\")* fn unused(x: char) -> char {{ x }}", s)); owner.push(k); }
            if j % 5 == 4 { s = lay(&s, "\n"); }
            texts.push(s);
            owner.push(k);
        }
    }
    let j = verdicts(ctx, &texts);
    let mut first: Vec<Option<usize>> = vec![None; gs.len()];
    for (i, k) in owner.iter().enumerate() {
        if let Verdict::Crash(s) = &j[i].v { ctx.violation(&texts[i], format!("Oak does not answer: {}", s), texts[i].clone()); continue; }
        match first[*k] {
            None => first[*k] = Some(i),
            Some(f) => if j[f].v.accepted() != j[i].v.accepted() {
                let (y, n) = if j[f].v.accepted() { (f, i) } else { (i, f) };
                ctx.violation(&texts[n], format!("{}, but the same grammar in another order, or without an unrelated rule, is accepted: {}", j[n].v.text(), texts[y]), format!("{}\n{}", texts[y], texts[n]));
            } else if i == f + 1 + 0 && texts[i] == texts[f] && j[f].v != j[i].v { ctx.violation(&texts[i], "compiled twice, with different results".into(), texts[i].clone()); },
        }
    }
    ctx.note("orders_judged", crate::json::J::Num(texts.len() as f64));
    ctx.note("orders_rejected", crate::json::J::Num(j.iter().filter(|x| !x.v.accepted()).count() as f64));
    ctx.add(texts.len() as u64, texts.len() as u64, texts.len() as u64);
    ctx.grammars.fetch_add(texts.len() as u64, std::sync::atomic::Ordering::Relaxed);

    attributes(ctx);

    // the behaviour of those which are accepted
    let mut run: Vec<Case> = vec![];
    let mut n = 0;
    for g in gs.iter() {
        if g.rules.iter().any(|r| r.external) || !only_local(g) { continue; }
        let c = match rust_ok(inferred(Case::new(g.clone(), 0, ALL)).into_iter().collect()).pop() { Some(c) => c, None => continue };
        if !honest(&c.arena().0) { continue; }
        n += 1;
        if !t && n % 4 != 0 { continue; }
        let it = items_of(&c);
        let os = orders(it.len());
        for (j, o) in os.iter().enumerate() {
            // among the orders, a few ones which change with the grammar
            if !t && (j + n) % os.len() > 1 && !(n % 8 == 0) { continue; }
            let mut c = c.clone();
            c.typed = true;
            let sep = [" ", "\n", " /* = */ "][(j + n) % 3];
            c.text = Some(["", "#![debug_typing]\n", "#![show_typing]\n", "#![unknown(\"x\")]\n", ""][(j + n / 3) % 5].to_string() + &o.iter().map(|i| it[*i].clone()).collect::<Vec<_>>().join(sep));
            c.rule = (j + n) % c.g.rules.len();
            run.push(c);
        }
    }
    // names
    let mut base: Vec<Case> = vec![];
    for e in vec![seq(vec![act(E::Any, "?")]), act(E::Nt(1), "?"), act(seq(vec![opt(cls("a")), plus(E::Nt(1))]), "?"), seq(vec![act(opt(act(E::Nt(1), "?")), "?"), star(seq(vec![not(act(cls("a"), "?")), act(E::Any, "?")]))]), act(cho(vec![seq(vec![cls("a"), E::Nt(1)]), seq(vec![E::Nt(1), cls("b")])]), "?"),
        plus(cho(vec![act(E::Nt(1), "?"), act(spn(seq(vec![lit("b"), E::Nt(1)])), "?")])), opt(seq(vec![E::Nt(1), act_box(rng(E::Nt(1)), "?")]))] {
        for s in [cls("ab"), act(cls("a"), "?"), seq(vec![cls("a"), opt(cls("b"))])] {
            let mut g = gram(vec![("r", e.clone()), ("s", s)]);
            number_actions(&mut g);
            if let Some(c) = rust_ok(inferred(Case::new(g, 0, ALL)).into_iter().collect()).pop() { base.push(c); }
        }
    }
    for (k, c) in base.iter().enumerate() {
        for (i, a) in ACT_NAMES.iter().enumerate() {
            // each of the actions has the name
            for which in 0..3usize {
                if !c.g.render().contains(&format!("act{}", which)) { continue; }
                if matches!(*a, "state" | "stateful" | "stateless") && (which > 0 || k != 4) { continue; }
                if *a == "act0" || !t && (i + k + which) % 2 == 1 && i < 29 { continue; }
                let f = |x: &str| if x == format!("act{}", which) { a.to_string() } else { x.to_string() };
                run.push(rename(c, &["r".into(), "s".into()], &f));
            }
        }
        for (i, a) in RULE_NAMES.iter().enumerate() { for (m, b) in RULE_NAMES.iter().enumerate() {
            if a == b || !t && (i * 5 + m + k) % 61 != 0 { continue; }
            run.push(rename(c, &[a.to_string(), b.to_string()], &|x| x.to_string()));
        } }
        // names which look like one another
        for (i, (a, b)) in [("r", "R"), ("Expr", "expr"), ("e1", "e_1"), ("ab", "a"), ("a", "ab"), ("r#fn", "Fn"), ("é", "É"), ("r_s", "rs"), ("s", "ss"), ("nn", "n"), ("x0", "x00"), ("_a", "a_"), ("fi", "ﬁ"), ("Str", "r#str")].iter().enumerate() {
            if !t && (i + k) % 4 != 0 { continue; }
            run.push(rename(c, &[a.to_string(), b.to_string()], &|x| x.to_string()));
        }
    }
    ctx.note("behaviours_compared", crate::json::J::Num(run.len() as f64));
    run_cases(ctx, &run, &[std_inputs(if t { 6 } else { 4 })], Opts::default());
}

// ---------------------------------------------------------------------------------------------
// The Calc language

/// The grammar of the manual, for the model.
fn calc() -> Gram {
    let names = ["program", "expression", "term", "exponent", "factor", "let_expr", "let_binding", "term_op", "factor_op", "exponent_op", "identifier", "ident_char", "digit", "number", "spacing", "kw_tail", "keyword", "let_kw", "in_kw", "bind_op", "add_op", "sub_op", "mul_op", "div_op", "exp_op", "lparen", "rparen"];
    let n = |s: &str| E::Nt(names.iter().position(|x| *x == s).unwrap());
    let tok = |s: &str| seq(vec![lit(s), n("spacing")]);
    let v: Vec<E> = vec![
        seq(vec![n("spacing"), n("expression")]),
        act(seq(vec![n("term"), star(seq(vec![n("term_op"), n("term")]))]), "left1"),
        act(seq(vec![n("exponent"), star(seq(vec![n("factor_op"), n("exponent")]))]), "left2"),
        act(seq(vec![star(seq(vec![n("factor"), n("exponent_op")])), n("factor")]), "right"),
        cho(vec![act(n("number"), "n"), act(n("identifier"), "i"), act(n("let_expr"), "l"), seq(vec![n("lparen"), n("expression"), n("rparen")])]),
        seq(vec![n("let_kw"), n("let_binding"), n("in_kw"), n("expression")]),
        seq(vec![n("identifier"), n("bind_op"), n("expression")]),
        cho(vec![act(n("add_op"), "add"), act(n("sub_op"), "sub")]),
        cho(vec![act(n("mul_op"), "mul"), act(n("div_op"), "div")]),
        act(n("exp_op"), "exp"),
        act(seq(vec![not(n("digit")), not(n("keyword")), plus(n("ident_char")), n("spacing")]), "id"),
        cls("a-zA-Z0-9_"), cls("0-9"),
        act(seq(vec![plus(n("digit")), n("spacing")]), "nb"),
        asc(star(cls(" \n\r\t")), "(^)"),
        seq(vec![not(n("ident_char")), n("spacing")]),
        cho(vec![n("let_kw"), n("in_kw")]),
        seq(vec![lit("let"), n("kw_tail")]), seq(vec![lit("in"), n("kw_tail")]),
        tok("="), tok("+"), tok("-"), tok("*"), tok("/"), tok("^"), tok("("), tok(")"),
    ];
    gram(names.iter().cloned().zip(v).collect())
}

pub fn c29(ctx: &Ctx) {
    ctx.assume("the reference is a lexer and a precedence climbing parser (probes/c29.rs); a let extends as far to the right as possible");
    run_probe(ctx, "c29", include_str!("../../probes/c29.rs"), 8);
    // every rule of the grammar on shorter inputs, with errors and calls of actions, against the model
    let t = ctx.thorough;
    let g = calc();
    let mut ins: Vec<String> = vec![];
    for w in words(&["1 ", "a ", "let ", "in ", "= ", "+ ", "* ", "^ ", "( ", ") "], if t { 4 } else { 3 }) { ins.push(w.trim_end().to_string()); }
    ins.extend(words(&["1", "a", "let", "in", "=", "+", "^", "(", ")"], if t { 4 } else { 3 }));
    ins.extend(words(&["1", "-", "/", "^", " ", "\n"], if t { 5 } else { 4 }));
    let mut v = vec![];
    for r in 0..g.rules.len() {
        if let Some(mut c) = inferred(Case::new(g.clone(), 0, ALL)) { c.rule = r; v.push(c); }
    }
    if v.len() != g.rules.len() { fatal("the Calc grammar is not valid for the model"); }
    run_cases(ctx, &v, &[ins], Opts::default());
}

// ---------------------------------------------------------------------------------------------
// Sizes

/// The text, cut and changed at its ends, its middle and around the thresholds.
fn around(s: &str, all: bool) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let n = c.len();
    let mut at: BTreeSet<usize> = if all && n <= 20 { (0..n).collect() } else { [0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1), 25, 26, 27, 255, 256, 257].iter().cloned().filter(|i| *i < n).collect() };
    if n == 0 { at.clear(); }
    let mut v = vec![s.to_string(), format!("{}b", s), format!("{}a", s)];
    for i in at {
        v.push(c[..i].iter().collect());
        let mut d = c.clone();
        d[i] = if d[i] == 'a' { 'b' } else { 'a' };
        v.push(d.iter().collect());
        let mut d = c.clone();
        d.remove(i);
        v.push(d.into_iter().collect());
    }
    let mut seen = BTreeSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

pub struct Fam { cases: Vec<Case>, inputs: Vec<Vec<String>> }
impl Fam {
    fn add(&mut self, g: Gram, inputs: Vec<String>) { self.add_rules(g, inputs, &[0]) }
    fn add_rules(&mut self, mut g: Gram, inputs: Vec<String>, rules: &[usize]) {
        number_actions(&mut g);
        let c = match inferred(Case::new(g, 0, ALL)) { Some(c) => c, None => return };
        let a = c.arena().0;
        if a.nodes.iter().any(|n| matches!(n.ty, Some(Err(_)))) || !a.rust_choices() { return; }
        for r in rules { let mut c = c.clone(); c.rule = *r; c.set = self.inputs.len(); c.typed = r == &0 && !a.ty_of_rule(0).rust().contains("'a"); self.cases.push(c); }
        self.inputs.push(inputs);
    }
}

fn rep(s: &str, n: usize) -> String { s.repeat(n) }

/// Programs whose size is n.
fn sized(f: &mut Fam, n: usize, t: bool) {
    let ab = |i: usize| if i % 3 == 1 { cls("b") } else { cls("a") };
    let abs: String = (0..n).map(|i| if i % 3 == 1 { 'b' } else { 'a' }).collect();
    // components of a sequence
    if n >= 2 {
        let small = n <= if t { 65 } else { 33 };
        if small { f.add(gram1(seq((0..n).map(|i| ab(i)).collect())), around(&abs, t)); }
        f.add(gram1(act(seq((0..n).map(|i| ab(i)).collect()), "?")), around(&abs, false));
        f.add(gram1(seq((0..n).map(|i| if i % 3 == 1 { lit("b") } else { lit("a") }).collect())), around(&abs, false));
        if small { f.add(gram1(seq((0..n).map(|i| opt(ab(i))).collect())), around(&abs, false)); }
        f.add(gram1(act(seq((0..n).map(|i| match i % 4 { 0 => spn(cls("a")), 1 => act(lit("b"), "same"), 2 => opt(lit("a")), _ => cho(vec![cls("a"), cls("b")]) }).collect()), "?")), around(&(0..n).map(|i| if i % 4 == 1 { 'b' } else { 'a' }).collect::<String>(), false));
        if small { f.add(gram1(spn(seq((0..n).map(|i| rng(ab(i))).collect()))), around(&abs, false)); }
        if small { f.add(gram(vec![("r", seq((0..n).map(|_| E::Nt(1)).collect())), ("s", cho(vec![cls("a"), cls("b")]))]), around(&abs, false)); }
        // all the characters are different
        let distinct: String = (0..n as u32).map(|i| std::char::from_u32(0x4e00 + i).unwrap()).collect();
        let same = || act(E::Any, "same");
        let ins = vec![distinct.clone(), distinct.chars().rev().collect(), distinct.chars().skip(1).collect()];
        if small { f.add(gram1(seq((0..n).map(|_| same()).collect())), ins.clone()); }
        if small && n * 6 / 5 < if t { 66 } else { 34 } { f.add(gram1(seq((0..n).map(|i| match i % 5 { 0 => opt(same()), 1 => asc(act(same(), "other"), "V"), 2 => spn(same()), 3 => cho(vec![same(), act(lit("a"), "third")]), _ => same() }).collect())), ins.clone()); }
        f.add(gram1(act(seq((0..n).map(|_| same()).collect()), "?")), ins.clone());
        f.add(gram1(act(seq((0..n).map(|i| match i % 6 { 0 => act(seq(vec![opt(lit("a")), E::Any, opt(cls("b"))]), "pair"), 1 => opt(E::Any), 2 => act(spn(E::Any), "place"), 3 => rng(E::Any), 4 => cho(vec![same(), act(lit("a"), "third")]), _ => E::Any }).collect()), "?")), ins.clone());
        // branches of a choice
        let word = |i: usize| { let mut s = String::new(); let mut k = i; for _ in 0..8 { s.push(if k & 1 == 1 { 'b' } else { 'a' }); k >>= 1; } s };
        let words: Vec<String> = (0..n).map(|i| word(i)).chain(vec![rep("a", 7), "bbbbbbbb".into(), String::new(), "c".into()]).collect();
        if n <= 256 {
            f.add(gram1(cho((0..n).map(|i| lit(&word(i))).collect())), words.clone());
            f.add(gram1(cho((0..n).map(|i| act(lit(&word(i)), "?")).collect())), words.clone());
            f.add(gram1(cho((0..n).map(|i| seq(vec![lit(&word(i)), cls("ab"), E::Any])).collect())), words.iter().map(|w| format!("{}aé", w)).collect());
            f.add(gram1(seq(vec![opt(cho((0..n).map(|i| seq(vec![cls(&word(i)[0..1]), lit(&word(i)[1..])])).collect())), E::Any])), words.iter().map(|w| format!("{}a", w)).collect());
        }
        // rules
        let names: Vec<String> = (0..n).map(|i| format!("r{}", i)).collect();
        let chain = |last: usize| Gram { rules: (0..n).map(|i| rule(&names[i], if i + 1 < n { seq(vec![ab(i), opt(E::Nt(i + 1))]) } else if last == n { ab(i) } else { asc(seq(vec![lit("b"), opt(E::Nt(last))]), "()") })).collect(), ..Default::default() };
        if n <= 12 || n % 16 == 0 {
            let mut g = chain(n);
            if n > 12 { for (i, r) in g.rules.iter_mut().enumerate() { if i % 8 == 7 { r.asc = Some("()".into()); } } }
            f.add(g, around(&abs, false));
            let mut g = chain(0);
            for r in g.rules.iter_mut() { r.asc = Some("()".into()); }
            f.add(g, around(&rep(&abs, 3), false));
        }
        // all the rules at once, last one first
        let mut rules = vec![rule("r", cho((0..n).map(|i| E::Nt(n - i)).collect()))];
        for i in 0..n { rules.push(rule(&names[i], seq(vec![lit(&rep("a", i % 40)), act(cls("b"), "same")]))) }
        if n <= 40 { for k in [1, n / 2 + 1, n] { let mut g = Gram { rules: rules.clone(), ..Default::default() }; g.rules.rotate_left(0); f.add_rules(g, (0..n.min(45)).map(|i| format!("{}b", rep("a", i))).chain(vec![rep("a", n)]).collect(), &[0, k]); } }
    }
    // nesting
    let nest = |base: E, w: &dyn Fn(E, usize) -> E| { let mut e = base; for i in 0..n { e = w(e, i) } e };
    if n <= 130 {
        let ins = around(&format!("{}{}", rep("a", n), rep("b", n)), false);
        f.add(gram1(nest(lit("a"), &|e, _| not(e))), vec!["".into(), "a".into(), "b".into()]);
        f.add(gram1(seq(vec![nest(lit("a"), &|e, _| and(e)), E::Any])), vec!["".into(), "a".into(), "b".into()]);
        f.add(gram1(nest(lit("a"), &|e, _| seq(vec![opt(lit("a")), e, lit("b")]))), ins.clone());
        f.add(gram1(asc(nest(cls("a"), &|e, _| seq(vec![e, opt(cls("b"))])), "()")), ins.clone());
        f.add(gram1(act(nest(cls("a"), &|e, _| spn(seq(vec![e, lit("b")]))), "?")), around(&format!("a{}", rep("b", n)), false));
        f.add(gram1(nest(cls("a"), &|e, i| act(e, if i == 0 { "same" } else { "other" }))), vec!["a".into(), "b".into()]);
        f.add(gram1(nest(cls("a"), &|e, i| if i % 2 == 0 { cho(vec![lit("b"), e]) } else { cho(vec![e, lit("b")]) })), vec!["a".into(), "b".into(), "".into()]);
        f.add(gram1(asc(nest(lit("a"), &|e, _| cho(vec![seq(vec![lit("b"), e]), lit("a")])), "(^)")), ins.clone());
    }
    if n <= 40 {
        f.add(gram1(nest(cls("a"), &|e, i| if i % 2 == 0 { plus(e) } else { opt(e) })), vec!["".into(), "aab".into(), "b".into()].into_iter().chain(around(&rep("a", 3), true)).collect());
        f.add(gram1(nest(cls("a"), &|e, i| match i % 3 { 0 => opt(seq(vec![lit("a"), e])), 1 => cho(vec![e.clone(), e]), _ => seq(vec![lit("b"), e]) })), vec![]);
        if n <= if t { 32 } else { 17 } { f.add(gram1(nest(cls("a"), &|e, _| seq(vec![opt(seq(vec![lit("a"), cls("b")])), e, opt(cls("b"))]))), around(&format!("{}a{}", rep("ab", n / 2), rep("b", n)), false)); }
        f.add(gram1(nest(cls("a"), &|e, _| cho(vec![seq(vec![lit("b"), e.clone()]), lit("ab")]))), vec![]);
    }
}

/// Tuples of n values, and units between them, wherever a value goes: in place or by a call.
pub fn tuples(f: &mut Fam, n: usize) {
    let ch = |i: usize| std::char::from_u32(0x4e00 + i as u32).unwrap();
    let plain: String = (0..n).map(ch).collect();
    let dashed: String = (0..n).map(|i| format!("{}-", ch(i))).collect();
    let bodies: Vec<(E, &String)> = vec![
        (seq((0..n).map(|_| E::Any).collect()), &plain),
        (seq((0..n).map(|i| match i % 5 { 0 => act(E::Any, "same"), 1 => E::Any, 2 => opt(E::Any), 3 => act_box(E::Any, "other"), _ => spn(E::Any) }).collect()), &plain),
        (seq((0..n).flat_map(|_| vec![E::Any, lit("-")]).collect()), &dashed),
    ];
    let cx: Vec<fn(E) -> E> = vec![|e| e, |e| seq(vec![cls("<"), e]), |e| seq(vec![e, cls(">")]), |e| seq(vec![lit("<"), e, lit(">")]), opt, |e| star(seq(vec![not(cls(">")), e])), |e| star(seq(vec![lit("<"), e])), |e| cho(vec![seq(vec![lit("<"), e.clone()]), e]), spn, |e| act(e, "?"), |e| act_box(e, "?"), |e| act(seq(vec![cls("<"), e, opt(cls(">"))]), "?"), |e| act(spn(e), "?"), |e| opt(spn(seq(vec![e, opt(cls(">"))]))), |e| seq(vec![e.clone(), opt(e)]), |e| plus(cho(vec![seq(vec![e.clone(), lit(">")]), seq(vec![lit("<"), e])])), |e| asc(e, "()")];
    for (b, text) in &bodies {
        let mut ins = vec![(*text).clone(), String::new(), text.chars().take(text.chars().count() - 1).collect()];
        for (x, y) in [("<", ""), ("", ">"), ("<", ">")] { ins.push(format!("{}{}{}", x, text, y)); ins.push(format!("{}{}{}", x, text, y).repeat(2)); }
        ins.push(text.repeat(2));
        for c in &cx {
            f.add(gram1(c(b.clone())), ins.clone());
            f.add(gram(vec![("r", c(E::Nt(1))), ("s", b.clone())]), ins.clone());
            f.add(gram(vec![("r", c(E::Nt(1))), ("s", E::Nt(2)), ("t", b.clone())]), ins.clone());
        }
    }
}

/// Programs of a size where every grammar is long to compile.
fn large(f: &mut Fam, n: usize) {
    let abs: String = (0..n).map(|i| if i % 3 == 1 { 'b' } else { 'a' }).collect();
    let word = |i: usize| format!("{:04}", i);
    let ends = |v: &[usize]| -> Vec<String> { v.iter().map(|i| word(*i)).collect() };
    let some: Vec<usize> = [0, 1, 15, 16, 31, 32, 63, 64, 99, 100, 126, 127, 128, 129, 199, 200, 254, 255, 256, 257, n / 2, n - 2, n - 1, n, n + 1].iter().cloned().filter(|i| *i <= n + 1).collect();
    f.add(gram1(seq((0..n).map(|i| if i % 3 == 1 { lit("b") } else { lit("a") }).collect())), around(&abs, false));
    f.add(gram1(act(seq((0..n).map(|i| if i % 3 == 1 { cls("b") } else { cls("a") }).collect()), "?")), around(&abs, false));
    f.add(gram1(asc(seq((0..n).map(|i| opt(if i % 3 == 1 { lit("b") } else { lit("a") })).collect()), "()")), around(&abs, false));
    f.add(gram1(cho((0..n).map(|i| lit(&word(i))).collect())), ends(&some));
    f.add(gram1(cho((0..n).map(|i| act(seq(vec![lit(&word(i)), E::Any]), "same")).collect())), ends(&some).iter().map(|w| format!("{}é", w)).collect());
    f.add(gram1(seq(vec![star(seq(vec![cho((0..n).map(|i| lit(&word(i))).collect()), lit(" ")])), opt(cls("0-9"))])), vec![ends(&some).join(" "), format!("{} ", ends(&some).join(" ")), format!("{} 0", ends(&some[1..]).join(" "))]);
    // a rule per letter or word
    let mut rules = vec![rule("r", seq(vec![E::Nt(n), opt(E::Nt(1))]))];
    for i in 1..=n { rules.push(rule(&format!("k{}", i), if i % 2 == 0 { lit(&word(i)) } else { seq(vec![lit(&word(i)), opt(E::Nt(if i + 2 <= n { i + 2 } else { 2 }))]) })) }
    for i in (1..=n).filter(|i| i % 8 == 1) { rules[i].asc = Some("()".into()); }
    let mut g = Gram { rules, ..Default::default() };
    g.rules[0].asc = Some("()".into());
    f.add(g, vec![format!("{}{}", word(n), word(1)), format!("{}{}{}", word(n), word(1), word(3)), word(n), word(n - 1), String::new()]);
    let nest = |base: E, w: &dyn Fn(E, usize) -> E| { let mut e = base; for i in 0..n { e = w(e, i) } e };
    if n <= 140 {
        f.add(gram1(nest(lit("a"), &|e, _| seq(vec![opt(lit("a")), e, lit("b")]))), around(&format!("{}{}", rep("a", n), rep("b", n)), false));
        f.add(gram1(nest(cls("a"), &|e, i| act(e, if i == 0 { "same" } else { "other" }))), vec!["a".into(), "b".into()]);
        f.add(gram1(nest(lit("a"), &|e, _| not(e))), vec!["".into(), "a".into(), "b".into()]);
    }
    // names
    let long: String = "n".repeat(n);
    f.add(Gram { rules: vec![rule("r", seq(vec![E::Nt(1), act(E::Nt(2), &format!("act_{}", long))])), rule(&long, cls("a")), rule(&format!("{}x", long), cls("b"))], ..Default::default() }, vec!["ab".into(), "aa".into(), "ba".into()]);
}

/// Inputs of size n.
fn inputs_sized(f: &mut Fam, sizes: &[usize]) {
    let mut strs = |unit: &str, tail: &[&str]| -> Vec<String> { let mut v = vec![]; for n in sizes { for t in tail { v.push(format!("{}{}", rep(unit, *n), t)); } } v };
    let one = strs("a", &["", "b", "é"]);
    let two = strs("ab", &["", "a", "b"]);
    let uni = strs("é", &["", "a", "𝄞"]);
    for e in [star(lit("a")), plus(lit("a")), star(cls("a")), plus(cls("ab")), plus(act(cls("a"), "?")), seq(vec![star(lit("a")), lit("b")]), spn(star(cls("a"))), rng(plus(lit("a"))), star(seq(vec![not(lit("b")), E::Any])), seq(vec![not(seq(vec![star(lit("a")), lit("b")])), plus(E::Any)]), star(cho(vec![lit("aaa"), lit("a"), cls("b")].into_iter().map(|e| asc(e, "()")).collect())), plus(plus(lit("a")))] { f.add(gram1(e), one.clone()); }
    for e in [star(lit("ab")), plus(seq(vec![cls("a"), cls("b")])), star(seq(vec![cls("a"), opt(cls("b"))])), star(spn(lit("ab"))), plus(seq(vec![lit("a"), plus(cls("b"))])), seq(vec![star(lit("ab")), lit("a")]), star(act(seq(vec![spn(cls("a")), rng(cls("b"))]), "?"))] { f.add(gram1(e), two.clone()); }
    for e in [star(lit("é")), plus(E::Any), seq(vec![star(cls("é")), lit("𝄞")]), spn(plus(cls("é𝄞")))] { f.add(gram1(e), uni.clone()); }
}

fn recursive_sized(f: &mut Fam, sizes: &[usize]) {
    let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
    for n in sizes { let n = *n; for d in [0, 1] { for e in ["", "c"] { a.push(format!("{}{}{}", rep("a", n), e, rep("b", n + 1 - d))); a.push(format!("{}{}{}", rep("a", n + d), e, rep("b", n))); } } b.push(rep("a", n)); b.push(format!("{}b", rep("a", n))); c.push(rep("ab", n)); c.push(format!("{}a", rep("ab", n))); }
    f.add(gram1(seq(vec![lit("a"), opt(E::Nt(0)), lit("b")])), a.clone());
    f.add(gram1(seq(vec![lit("a"), cho(vec![E::Nt(0), lit("c")]), lit("b")])), a.clone());
    let mut g = gram1(act(seq(vec![cls("a"), spn(opt(E::Nt(0))), lit("b")]), "?"));
    g.rules[0].asc = Some("V".into());
    f.add(g, a.iter().filter(|x| x.len() < 300).cloned().collect());
    let mut g = gram(vec![("r", seq(vec![cls("a"), opt(E::Nt(1))])), ("s", cho(vec![seq(vec![lit("b"), opt(E::Nt(0))]), lit("c")]))]);
    g.rules[1].asc = Some("()".into());
    f.add(g, c.clone());
    f.add(gram(vec![("r", asc(seq(vec![cls("a"), star(E::Nt(1))]), "(^)")), ("s", asc(cho(vec![seq(vec![lit("b"), E::Nt(0)]), lit("c")]), "(^)"))]), c);
    f.add(gram1(cho(vec![seq(vec![lit("a"), E::Nt(0)]), lit("b")])), b.clone());
    f.add(gram1(seq(vec![not(lit("b")), lit("a"), opt(E::Nt(0))])), b);
}

fn texts_sized(f: &mut Fam, n: usize) {
    let s: String = (0..n).map(|i| ['a', 'b', 'é', '\n', '𝄞', '"'][(i * 7 + i / 6) % 6]).collect();
    let cut = |s: &str| -> Vec<String> { let c: Vec<char> = s.chars().collect(); let mut v: Vec<String> = [0, 1, n / 2, n - 1].iter().map(|i| c[..*i].iter().collect()).collect(); v.push(s.to_string()); v.push(format!("{}x", s)); v.push(format!("{}{}", &c[..n - 1].iter().collect::<String>(), 'z')); v };
    f.add(gram1(lit(&s)), cut(&s));
    f.add(gram1(seq(vec![opt(lit(&s)), opt(E::Any)])), cut(&s));
    f.add(gram1(spn(cho(vec![lit(&format!("{}x", s)), lit(&s), lit("a")]))), cut(&s));
    // classes: every other character, and intervals
    let from = if n <= 40 { 'A' as u32 } else { 0x3b1 };
    let every: String = (0..n as u32).map(|i| std::char::from_u32(from + 2 * i).unwrap()).filter(|c| *c != '-').collect();
    let some: Vec<String> = (0..2 * n as u32 + 2).filter(|i| n <= 60 || *i < 8 || *i + 8 > 2 * n as u32 || i % 37 == 0).map(|i| std::char::from_u32(from - 1 + i).unwrap().to_string()).collect();
    f.add(gram1(cls(&every)), some.clone());
    f.add(gram1(seq(vec![cls(&every), star(cls(&every))])), some.iter().map(|x| format!("{}{}", x, x)).collect());
    let inter: String = (0..n as u32).flat_map(|i| vec![std::char::from_u32(0x4e00 + 5 * i).unwrap(), '-', std::char::from_u32(0x4e00 + 5 * i + 2).unwrap()]).collect();
    f.add(gram1(cls(&inter)), (0..5 * n as u32 + 2).filter(|i| n <= 60 || *i < 8 || *i + 8 > 5 * n as u32 || i % 37 == 0).map(|i| std::char::from_u32(0x4dff + i).unwrap().to_string()).collect());
}

pub fn c30(ctx: &Ctx) {
    ctx.assume(SEM);
    let t = ctx.thorough;
    let mut f = Fam { cases: vec![], inputs: vec![] };
    let ns: Vec<usize> = if t { (1..=66).chain(vec![100, 127, 128, 129]).collect() } else { (1..=14).chain(vec![25, 26, 27, 28, 33, 51, 53, 64]).collect() };
    for n in &ns { sized(&mut f, *n, t); }
    for n in if t { (2..=33).collect() } else { vec![4, 6, 11] } { tuples(&mut f, n); }
    for n in if t { vec![70, 90, 100, 120, 128, 129, 130, 140, 180, 200, 255, 256, 257, 300, 400, 520] } else { vec![100, 130, 200, 258] } { large(&mut f, n); }
    let a = f.cases.len();
    let sizes: Vec<usize> = if t { (0..=34).chain(62..=66).chain(126..=130).chain(254..=258).chain(vec![511, 512, 513, 1000, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 70000]).collect() } else { (0..=18).chain(vec![26, 27, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 1000, 1024, 4097]).collect() };
    inputs_sized(&mut f, &sizes);
    if !t { inputs_sized(&mut f, &[32768, 65535, 65536, 65537]); }
    recursive_sized(&mut f, if t { &[0, 1, 2, 3, 10, 26, 64, 127, 128, 129, 255, 256, 257, 500, 1000] } else { &[0, 1, 2, 3, 10, 26, 64, 128, 256, 500] });
    for n in if t { (1..=70).chain(vec![127, 128, 200, 255, 256, 257, 300, 1000]).collect::<Vec<_>>() } else { vec![1, 2, 3, 7, 8, 9, 15, 16, 17, 26, 31, 32, 33, 64, 65, 128, 255, 256, 257] } { texts_sized(&mut f, n); }
    let mut many = vec![];
    let mut sets = vec![];
    crate::checks6::add_many_expected(&mut many, &mut sets, if t { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 24, 26, 27, 32, 33, 48, 64, 65, 128, 129, 256, 257] } else { &[2, 4, 5, 8, 9, 16, 17, 26, 27, 33, 64] }, ALL);
    for c in many.iter_mut() { c.set += f.inputs.len(); }
    f.cases.extend(many);
    f.inputs.extend(sets);
    ctx.note("program_sizes", crate::json::J::Num(a as f64));
    ctx.note("input_sizes", crate::json::J::Num((f.cases.len() - a) as f64));
    // the inputs of a chunk are in its program
    let Fam { cases, inputs } = f;
    run_cases(ctx, &cases, &inputs, Opts { chunk: if t { 20 } else { 12 }, tuples: if t { 66 } else { 36 }, ..Opts::default() });
}

/// Sizes, characters of every kind and features together, for the checks of the other properties.
fn odd_texts(f: &mut Fam, t: bool) {
    let odd = ["\"", "\\", "'", "\n", "\r\n", "\t", "\0", "{", "}", "[", "]", "-", "/", "//", "`", "%", "\u{7f}", "é", "ß", "€", "\u{fffd}", "𝄞", "\u{301}", " "];
    for (i, x) in odd.iter().enumerate() {
        let y = odd[(i * 5 + 7) % odd.len()];
        let z = odd[(i * 11 + 3) % odd.len()];
        let cl = |s: &str| -> E { let c = s.chars().last().unwrap(); if c == '-' { cls("-") } else { cls(&c.to_string()) } };
        let both = |s: &str, u: &str| -> E { let c: String = [s, u].iter().map(|s| s.chars().last().unwrap()).collect(); if c.contains('-') || c.chars().nth(0) == c.chars().nth(1) { cls("a-cé") } else { cls(&c) } };
        let mut ins = words(&[x, y, "a"], 3);
        ins.extend(words(&[x, y, z], 2));
        ins.push(format!("{}{}{}{}", x, y, x, y));
        ins.push(format!("\n\n{}a{}", x, z));
        ins.sort();
        ins.dedup();
        let es = vec![
            lit(x), cl(x), seq(vec![lit(x), lit(y)]), seq(vec![cl(x), both(x, y), opt(lit(z))]), cho(vec![lit(&format!("{}{}", x, y)), lit(x), lit(y)]), star(seq(vec![not(lit(y)), E::Any])), seq(vec![star(cl(x)), lit(y)]),
            act(seq(vec![E::Any, spn(lit(x)), opt(cl(y))]), "?"), spn(seq(vec![opt(lit(y)), plus(cho(vec![cl(x), both(y, z)]))])), seq(vec![act(both(x, y), "?"), rng(opt(lit(x))), and(E::Any), E::Any]), seq(vec![E::Any, cho(vec![lit(x), seq(vec![lit(y), lit(z)])])]), seq(vec![lit("\n"), lit("\n"), lit(x), lit("a"), opt(lit(z))]),
        ];
        for (k, e) in es.into_iter().enumerate() { if t || (i + k) % 2 == 0 { f.add(gram1(e), ins.clone()); } }
    }
}

pub fn variety(ctx: &Ctx, mask: u16, cmp: Option<&(dyn Fn(&Case, &G, &str, &[&str], &mut Count) -> Option<String> + Sync)>) {
    let t = ctx.thorough;
    let mut f = Fam { cases: vec![], inputs: vec![] };
    for n in if t { vec![2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 17, 26, 27, 33] } else { vec![3, 5, 9, 12] } { sized(&mut f, n, false); }
    f.cases.retain(|c| c.rule == 0);
    if !t { let a = f.cases.len(); sized(&mut f, 33, false); let mut k = 0; f.cases.retain(|c| { k += 1; k <= a || c.rule == 0 && c.g.rules.len() == 1 }); }
    for n in if t { vec![3, 4, 5, 6, 7, 9, 13] } else { vec![3, 4, 5] } { tuples(&mut f, n); }
    inputs_sized(&mut f, if t { &[0, 1, 2, 7, 8, 9, 16, 17, 33, 65, 129, 257, 1025] } else { &[0, 3, 9, 17, 65, 257] });
    recursive_sized(&mut f, if t { &[0, 1, 2, 5, 17, 65, 129, 257] } else { &[3, 17, 65] });
    for n in if t { vec![3, 8, 9, 16, 17, 26, 32, 33, 64, 65, 128, 129, 256, 257] } else { vec![5, 9, 17, 33, 65, 257] } { texts_sized(&mut f, n); }
    odd_texts(&mut f, t);
    let Fam { mut cases, inputs } = f;
    for c in cases.iter_mut() { c.mask = mask; }
    ctx.note("variety_grammars", crate::json::J::Num(cases.len() as f64));
    // expensive grammars are next to each other
    let n = cases.len();
    let chunk = 24;
    let k = (n + chunk - 1) / chunk;
    let mut mixed = vec![];
    for i in 0..k { let mut j = i; while j < n { mixed.push(cases[j].clone()); j += k; } }
    run_cases(ctx, &mixed, &inputs, Opts { chunk, tuples: 36, cmp, ..Opts::default() });
}
