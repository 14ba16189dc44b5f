//! Families of grammars shared by several checks: forms of actions, nested spans, many branches, recursions behind prefixes.
use crate::checks::*;
use crate::checks3::*;
use crate::gens::*;
use crate::model::*;
use crate::probe::*;

// ---------------------------------------------------------------------------------------------
// What an action may be: a function or a constructor, by any path

const AST: &str = "pub mod ast { use super::*; use std::marker::PhantomData;
pub enum E { Nil, Ch(char), ChCh(char, char), Li(Vec<char>), Op(Option<char>), Sp(Span), SpCh(Span, char) }
pub struct Unit; pub struct Wrap(pub char); pub struct T; pub struct Gn<X>(PhantomData<X>); pub trait Tr { fn tmk() -> V; fn tch(x: char) -> V; }
fn shw(o: &mut String, n: &str, a: &[&dyn Show]) { o.push_str(n); o.push('('); for (i, x) in a.iter().enumerate() { if i > 0 { o.push(',') } x.show(o) } o.push(')') }
impl Show for E { fn show(&self, o: &mut String) { match self { E::Nil => shw(o, \"Nil\", &[]), E::Ch(a) => shw(o, \"Ch\", &[a]), E::ChCh(a, b) => shw(o, \"ChCh\", &[a, b]), E::Li(a) => shw(o, \"Li\", &[a]), E::Op(a) => shw(o, \"Op\", &[a]), E::Sp(a) => shw(o, \"Sp\", &[a]), E::SpCh(a, b) => shw(o, \"SpCh\", &[a, b]) } } }
impl Show for Unit { fn show(&self, o: &mut String) { o.push_str(\"Unit()\") } }
impl Show for Wrap { fn show(&self, o: &mut String) { shw(o, \"Wrap\", &[&self.0]) } }
macro_rules! fns { () => { pub fn mk() -> V { rt_act(\"mk\", &[]) } pub fn ch(x: char) -> V { rt_act(\"ch\", &[&x]) } pub fn ch_ch(x: char, y: char) -> V { rt_act(\"ch_ch\", &[&x, &y]) } pub fn li(x: Vec<char>) -> V { rt_act(\"li\", &[&x]) } pub fn op(x: Option<char>) -> V { rt_act(\"op\", &[&x]) } pub fn sp(x: Span) -> V { rt_act(\"sp\", &[&x]) } pub fn sp_ch(x: Span, y: char) -> V { rt_act(\"sp_ch\", &[&x, &y]) } pub fn mkNil() -> V { rt_act(\"mkNil\", &[]) } pub fn mN2() -> V { rt_act(\"mN2\", &[]) } pub fn é() -> V { rt_act(\"é\", &[]) } pub fn _mk() -> V { rt_act(\"_mk\", &[]) } pub fn r#type() -> V { rt_act(\"r#type\", &[]) } pub fn chA(x: char) -> V { rt_act(\"chA\", &[&x]) } } }
fns!(); impl T { fns!(); } impl<X> Gn<X> { fns!(); } pub mod imp { use super::*; fns!(); pub mod Deep { use super::*; fns!(); } }
impl Tr for T { fn tmk() -> V { rt_act(\"tmk\", &[]) } fn tch(x: char) -> V { rt_act(\"tch\", &[&x]) } }
pub fn gen<X: Show>(x: X) -> V { rt_act(\"gen\", &[&x]) } pub fn gen0<X>() -> V { rt_act(\"gen0\", &[]) } }
use self::ast::E::*; use self::ast::{Unit, Wrap, T, Gn};";

/// Expression, action, type.
fn forms() -> Vec<(E, String, String)> {
    let shapes: Vec<(Vec<E>, &str, &str)> = vec![
        (vec![lit("a"), asc(cls("a"), "()"), asc(cls("a"), "(^)"), seq(vec![lit("a"), not(lit("b"))]), seq(vec![asc(cls("a"), "()"), lit("b")])], "Nil", "mk"),
        (vec![cls("a"), seq(vec![lit("b"), E::Any])], "Ch", "ch"), (vec![seq(vec![cls("a"), E::Any])], "ChCh", "ch_ch"), (vec![plus(cls("a"))], "Li", "li"),
        (vec![seq(vec![lit("b"), opt(cls("a"))])], "Op", "op"), (vec![spn(lit("a"))], "Sp", "sp"), (vec![spn(cls("a"))], "SpCh", "sp_ch"),
    ];
    let mut v = vec![];
    for (es, ctor, f) in &shapes {
        for (k, e) in es.iter().enumerate() {
            for p in ["ast::E::", "", "self::ast::E::"] { v.push((e.clone(), format!("{}{}", p, ctor), "ast::E".to_string())); if k > 1 { break; } }
            for p in ["ast::", "self::ast::", "ast::T::", "T::", "ast::imp::", "ast::imp::Deep::", "<T>::", "<ast::T>::", "Gn::<char>::", "ast::Gn::<V>::"] { v.push((e.clone(), format!("{}{}", p, f), "V".into())); }
        }
    }
    for (e, a, t) in [
        (lit("a"), "ast::mkNil", "V"), (asc(cls("a"), "()"), "T::mkNil", "V"), (lit("a"), "Gn::<char>::mN2", "V"), (lit("a"), "ast::imp::Deep::é", "V"), (lit("b"), "T::_mk", "V"), (lit("a"), "ast::r#type", "V"), (cls("a"), "T::chA", "V"), (cls("a"), "ast::imp::Deep::chA", "V"),
        (lit("a"), "Unit", "Unit"), (lit("a"), "ast::Unit", "Unit"), (cls("a"), "Wrap", "Wrap"), (E::Any, "ast::Wrap", "ast::Wrap"), (lit("a"), "<T as ast::Tr>::tmk", "V"), (cls("a"), "<T as ast::Tr>::tch", "V"),
        (cls("a"), "ast::gen", "V"), (cls("a"), "ast::gen::<char>", "V"), (opt(cls("a")), "ast::gen", "V"), (plus(asc(cls("a"), "()")), "ast::gen::<Vec<()>>", "V"), (lit("a"), "ast::gen0::<char>", "V"),
        (cls("a"), "Some", "Option<char>"), (cls("a"), "Option::Some", "Option<char>"), (cls("a"), "Box::new", "Box<char>"), (plus(cls("a")), "Some", "Option<Vec<char>>"), (lit("a"), "Vec::new", "Vec<char>"), (cls("a"), "u32::from", "u32"),
    ] { v.push((e, a.into(), t.into())); }
    v.into_iter().filter(|x| x.1 != "mk").collect()
}

pub fn action_forms(set: usize, mask: u16) -> Vec<Case> {
    let mut out = vec![];
    let fs = forms();
    for (e, name, ty) in &fs {
        for boxed in [false, true] {
            let x = E::Act(Box::new(e.clone()), Action { name: name.clone(), boxed, known: false });
            let tx = if boxed { format!("Box<{}>", ty) } else { ty.clone() };
            let a = || asc(x.clone(), &tx);
            let mut gs: Vec<Gram> = vec![];
            let mut push = |v: Vec<(&str, E)>, t: &[&str]| { let mut g = gram(v); for (i, t) in t.iter().enumerate() { if !t.is_empty() { g.rules[i].asc = Some(t.to_string()); } } gs.push(g) };
            push(vec![("r", x.clone())], &[&tx]);
            push(vec![("r", a())], &[]);
            push(vec![("r", seq(vec![opt(a()), E::Any]))], &[]);
            push(vec![("r", star(seq(vec![a(), lit("b")])))], &[]);
            push(vec![("r", seq(vec![cls("b"), a(), act(opt(E::Any), "?")]))], &[]);
            push(vec![("r", cho(vec![seq(vec![x.clone(), lit("b")]), x.clone()]))], &[&tx]);
            push(vec![("r", seq(vec![and(x.clone()), E::Any]))], &[]);
            push(vec![("r", asc(seq(vec![x.clone(), opt(E::Any)]), "()"))], &[]);
            push(vec![("r", act(seq(vec![a(), opt(cls("b"))]), "?"))], &[]);
            push(vec![("r", seq(vec![E::Nt(1), opt(E::Nt(1))])), ("s", x.clone())], &["", &tx]);
            push(vec![("r", spn(seq(vec![a(), rng(opt(lit("b")))])))], &[]);
            for mut g in gs {
                number_actions(&mut g);
                let mut c = Case::new(g, set, mask);
                c.pre = AST.into();
                c.action_ty.push((name.clone(), ty.clone()));
                out.push(c);
            }
        }
    }
    keep_valid(out)
}

/// Functions returning every kind of Rust type, declared in the grammar or outside: only the matches are compared when they are run.
pub fn return_types(set: usize) -> Vec<Case> {
    let tys: &[(&str, &str)] = &[("(char, u32)", "('a', 1)"), ("((char, u32), ())", "(('a', 1), ())"), ("[u8; 2]", "[0, 1]"), ("&'static str", "\"a\""), ("Result<char, ()>", "Ok('a')"), ("fn(u32) -> u32", "{ fn id(x: u32) -> u32 { x } id }"), ("Box<dyn Fn(u32) -> u32>", "Box::new(|x| x)"),
        ("Option<(char, char)>", "None"), ("Vec<Vec<(u8, char)>>", "vec![]"), ("std::collections::HashMap<String, Vec<u8>>", "Default::default()"), ("bool", "true"), ("char", "'z'"), ("Option<()>", "Some(())"), ("Box<(char,)>", "Box::new(('a',))"), ("(char,)", "('a',)"), ("*const u8", "std::ptr::null()"), ("<u8 as std::ops::Add>::Output", "0"), ("&'static [&'static str]", "&[]"), ("Span", "make_span(0, 0)"), ("Vec<()>", "vec![]"), ("crate::rt::V", "V(String::new())")];
    let mut out = vec![];
    for (i, (ty, val)) in tys.iter().enumerate() { for arg in [false, true] { for local in [true, false] {
        let name = if local { "lf" } else { "ast::lf" };
        let decl = format!("pub fn lf({}) -> {} {{ {} }}", if arg { "_x: char" } else { "" }, ty, val);
        let x = || { let x = E::Act(Box::new(if arg { cls("a") } else { lit("a") }), Action { name: name.into(), boxed: false, known: false }); if local { x } else { asc(x, ty) } };
        let gen = |e: E| asc(E::Act(Box::new(e), Action { name: "ast::gen".into(), boxed: false, known: false }), "V");
        let mut gs = vec![
            gram1(x()), gram1(opt(x())), gram1(star(x())), gram1(seq(vec![x(), cls("b")])), gram1(seq(vec![cls("b"), x(), opt(x())])), gram1(cho(vec![seq(vec![lit("b"), x()]), x()])), gram1(gen(x())), gram1(seq(vec![gen(star(x())), E::Any])), gram1(spn(x())), gram1(spn(seq(vec![x(), cls("b")]))),
            gram1(rng(x())), gram1(seq(vec![and(x()), E::Any])), gram1(asc(x(), "()")), gram(vec![("r", seq(vec![E::Nt(1), cls("b")])), ("s", x())]), gram(vec![("r", gen(E::Nt(1))), ("s", x())]), gram(vec![("r", opt(E::Nt(1))), ("s", cho(vec![x(), seq(vec![lit("b"), x()])]))]),
        ];
        { let mut g = gram1(E::Act(Box::new(if arg { cls("a") } else { lit("a") }), Action { name: name.into(), boxed: true, known: false })); g.rules[0].asc = Some(format!("Box<{}>", ty)); gs.push(g); }
        { let mut g = gram(vec![("r", star(E::Nt(1))), ("s", E::Act(Box::new(if arg { cls("a") } else { lit("a") }), Action { name: name.into(), boxed: false, known: false }))]); g.rules[1].asc = Some(ty.to_string()); gs.push(g); }
        for mut g in gs {
            if local { if i % 2 == 0 { g.items.push(decl.clone()) } else { g.items.push(format!("#[inline] {}", decl.trim_start_matches("pub "))) } }
            let mut c = Case::new(g, set, R | P);
            c.pre = if local { AST.into() } else { AST.replace("pub fn gen<", &format!("{} pub fn gen<", decl)) };
            c.pre = c.pre.replace("pub fn gen<X: Show>(x: X) -> V { rt_act(\"gen\", &[&x]) }", "pub fn gen<X>(_x: X) -> V { V(String::new()) }");
            c.action_ty.push((name.into(), ty.to_string()));
            c.action_ty.push(("ast::gen".into(), "V".into()));
            let ty = { let a = c.arena(); if a.1.is_err() { continue } a.0.ty_of_rule(0).rust() };
            c.go = Some(format!("pub fn go<'a>(_: &'a str) -> String {{ let _: fn(PS<'a, ()>) -> PS<'a, {}> = parse_r; let _: fn(PS<'a, ()>) -> PS<'a, ()> = recognize_r; String::new() }}", ty));
            c.typed = true;
            out.push(c);
        }
    } } }
    keep_valid(out)
}

/// Only the constructors and functions without argument.
pub fn unit_forms(v: Vec<Case>) -> Vec<Case> { v.into_iter().filter(|c| has(c, |e| matches!(e, E::Act(x, a) if !a.known && matches!(**x, E::Lit(_) | E::Asc(..))))).collect() }

// ---------------------------------------------------------------------------------------------
// Spans inside of spans

/// Every composition of three of these constructions.
pub fn nested_spans(thorough: bool) -> Vec<Gram> {
    let steps: Vec<fn(E) -> E> = vec![
        spn, |e| spn(seq(vec![lit("b"), e])), |e| spn(seq(vec![e, cls("b")])), rng, |e| act(e, "?"), |e| act(spn(seq(vec![lit("b"), e])), "?"), |e| act(spn(seq(vec![e, opt(cls("b"))])), "?"),
        |e| opt(spn(e)), |e| plus(spn(seq(vec![e, opt(lit("b"))]))), |e| seq(vec![lit("b"), e]), |e| seq(vec![opt(cls("b")), e]), |e| seq(vec![spn(opt(lit("b"))), e]), |e| asc(act(spn(e), "?"), "V"), |e| cho(vec![seq(vec![cls("b"), asc(rng(e.clone()), "()"), E::Any]).clone(), seq(vec![cls("a"), E::Any])]), |e| seq(vec![rng(opt(lit("b"))), opt(e)]),
    ];
    let mut v = vec![];
    for a in &steps { for b in &steps { for c in &steps {
        v.push(gram1(a(b(c(cls("a"))))));
        if thorough { v.push(gram1(a(b(c(lit("a")))))); for d in &steps { v.push(gram1(a(b(c(d(cls("a"))))))); } }
    } } }
    // and of four or five of the ones with an action
    let act_steps: Vec<fn(E) -> E> = vec![|e| act(spn(e), "?"), |e| act(spn(seq(vec![lit("b"), e])), "?"), |e| act(spn(seq(vec![e, cls("b")])), "?"), |e| spn(seq(vec![lit("b"), e]))];
    for a in &act_steps { for b in &act_steps { for c in &act_steps { for d in &act_steps { v.push(gram1(a(b(c(d(cls("a"))))))); if thorough { for e in &act_steps { v.push(gram1(a(b(c(d(e(cls("a")))))))); } } } } } }
    for g in v.iter_mut() { number_actions(g); }
    dedup(v)
}

// ---------------------------------------------------------------------------------------------
// Many terminals expected at a position

const LETTERS: &str = "cdefghijklmnopqrstuvw0123456789ABCDEFGHIJKLMNOPQRSTUVW";

/// n alternatives after a prefix, then what comes after the backtracking.
pub fn many_expected(n: usize) -> (Vec<Gram>, Vec<String>) {
    let ls: Vec<String> = LETTERS.chars().cycle().take(n).enumerate().map(|(i, c)| if i < LETTERS.len() { c.to_string() } else { format!("{}{}", c, i) }).collect();
    let branches = |f: &dyn Fn(&str) -> E| cho(ls.iter().map(|l| f(l)).collect());
    let opts = |f: &dyn Fn(&str) -> E| seq(ls.iter().map(|l| opt(f(l))).collect());
    let b = || if n > 1 { branches(&|l| lit(l)) } else { lit("c") };
    let c = || if n > 1 { branches(&|l| cls(&l[..1])) } else { cls("c") };
    let o = || if n > 1 { opts(&|l| lit(l)) } else { opt(lit("c")) };
    let es = vec![
        cho(vec![seq(vec![lit("x"), b()]), lit("y")]), cho(vec![seq(vec![lit("x"), b()]), seq(vec![lit("x"), lit("y")]), lit("z")]), cho(vec![seq(vec![lit("x"), o(), lit("y")]), lit("z")]),
        seq(vec![opt(seq(vec![lit("x"), b()])), lit("x")]), seq(vec![not(seq(vec![lit("x"), b()])), lit("x")]), seq(vec![and(seq(vec![lit("x"), o()])), lit("x"), lit("y")]), seq(vec![star(seq(vec![lit("x"), b()])), lit("y")]), seq(vec![plus(seq(vec![lit("x"), o()])), lit("y")]),
        seq(vec![lit("x"), b()]), seq(vec![o(), lit("y")]), seq(vec![lit("x"), opt(b()), opt(c()), lit("y")]), cho(vec![seq(vec![lit("x"), c()]), seq(vec![lit("x"), b(), lit("z")])]), star(seq(vec![lit("x"), opt(b())])),
    ];
    let mut gs: Vec<Gram> = es.into_iter().map(gram1).collect();
    gs.push(gram(vec![("r", cho(vec![seq(vec![lit("x"), E::Nt(1)]), lit("y")])), ("s", b())]));
    gs.push(gram(vec![("r", act(seq(vec![opt(seq(vec![lit("x"), E::Nt(1)])), E::Any]), "?")), ("s", act(c(), "?"))]));
    let mut ins: Vec<String> = vec![];
    for p in ["", "x", "xx", "y", "xy"] { for s in ["", "x", "y", "z", "é"] { ins.push(format!("{}{}", p, s)); } }
    for k in [0, n / 2, n - 1] { for p in ["", "x", "xc", "y"] { for s in ["", "x", "y", "xy", "xé"] { ins.push(format!("{}{}{}", p, ls[k], s)); } } }
    ins.sort();
    ins.dedup();
    (gs, ins)
}

/// Adds them to a family of cases and its sets of inputs.
pub fn add_many_expected(cs: &mut Vec<Case>, inputs: &mut Vec<Vec<String>>, sizes: &[usize], mask: u16) {
    for n in sizes {
        let (gs, ins) = many_expected(*n);
        // the widest ones take seconds each to compile
        let gs: Vec<Gram> = gs.into_iter().enumerate().filter(|(i, _)| *n <= 100 || (i + n) % 4 == 0).map(|x| x.1).collect();
        for mut g in gs { number_actions(&mut g); if let Some(mut c) = inferred(Case::new(g, inputs.len(), mask)) { c.set = inputs.len(); cs.push(c); } }
        inputs.push(ins);
    }
}

// ---------------------------------------------------------------------------------------------
// Recursion behind any prefix; attributes which need several rounds

/// Every expression of at most `max` nodes before a recursive call.
pub fn prefixed_recursion(max: usize) -> Vec<Gram> {
    let ps = Space { seq: 2, cho: 2, prune: false, ..Space::with(vec![lit("a"), lit("b"), lit(""), E::Nt(1)]) }.upto(max);
    let mut v = vec![];
    for (i, p) in ps.iter().enumerate() {
        let subs = [lit("a"), opt(lit("a"))];
        let n = if uses(p, 1) { 2 } else { 1 };
        for s in &subs[..n] {
            let mut add = |e: E, more: Vec<(&'static str, E)>| { let mut x = vec![("r", e), ("s", s.clone())]; x.extend(more); v.push(gram(x)) };
            let r = || E::Nt(0);
            add(cho(vec![seq(vec![p.clone(), r(), lit("c")]), lit("d")]), vec![]);
            add(cho(vec![lit("d"), seq(vec![p.clone(), r()])]), vec![]);
            if i % 2 == 0 || p.size() < max { add(seq(vec![p.clone(), opt(r())]), vec![]); add(cho(vec![seq(vec![p.clone(), E::Nt(2)]), lit("d")]), vec![("t", cho(vec![r(), lit("e")]))]); }
            if i % 2 == 1 || p.size() < max { add(seq(vec![lit("d"), opt(seq(vec![p.clone(), r()]))]), vec![]); add(cho(vec![seq(vec![p.clone(), p.clone(), r()]), lit("d")]), vec![]); add(seq(vec![opt(p.clone()), star(seq(vec![lit("d"), r()])), opt(seq(vec![lit("c"), and(r())]))]), vec![]); }
        }
    }
    v
}

/// A rule which consumes or not depending on its other alternatives, used under contexts, with unrelated rules around.
pub fn rounds(thorough: bool) -> Vec<Gram> {
    let inner: Vec<fn(E) -> E> = vec![|e| e, opt, star, plus, not, and, |e| seq(vec![e, lit("b")]), |e| seq(vec![opt(lit("b")), e]), |e| cho(vec![e, lit("b")]), |e| cho(vec![lit("b"), e]), |e| seq(vec![not(lit("b")), e]), |e| seq(vec![e.clone(), e])];
    let alts: Vec<fn(E) -> E> = vec![|e| e, |e| cho(vec![e, lit("")]), |e| cho(vec![e, lit("b")]), |e| cho(vec![e, opt(lit("b"))]), |e| cho(vec![lit("b"), e]), |e| cho(vec![e, and(lit("b"))]), |e| cho(vec![e, star(lit("b"))])];
    let z: Vec<E> = vec![lit("z"), opt(lit("z")), star(lit("z"))];
    let mut v = vec![];
    let (mut k, mut take) = (0usize, 0usize);
    for a in &inner { for b in &inner { for l in &alts {
        // alone
        v.push(vec![("r", l(seq(vec![lit("a"), a(b(E::Nt(0)))])))]);
        // through another rule
        v.push(vec![("r", l(seq(vec![lit("a"), a(E::Nt(1))]))), ("s", b(E::Nt(0)))]);
        v.push(vec![("r", seq(vec![lit("a"), a(b(E::Nt(1)))])), ("s", l(seq(vec![lit("c"), opt(E::Nt(0))])))]);
        // the rule which loops is another one
        v.push(vec![("r", a(b(E::Nt(1)))), ("s", l(seq(vec![lit("a"), opt(E::Nt(0))]))) ]);
        v.push(vec![("r", l(lit("a"))), ("s", seq(vec![lit("a"), a(b(E::Nt(0)))]))]);
    } } }
    let mut out = vec![];
    for g in v {
        let n = g.len();
        out.push(gram(g.clone()));
        for p in 0..=n { for e in &z {
            take += 1;
            if !thorough && take % 3 != k % 3 { continue; }
            let mut h = g.clone();
            h.insert(p, ("z", e.clone()));
            let map: Vec<usize> = (0..n).map(|i| if i < p { i } else { i + 1 }).collect();
            // the unrelated rule calls nobody
            let names: Vec<(&str, E)> = h;
            let mut x = gram(names);
            let zi = p;
            for (i, r) in x.rules.iter_mut().enumerate() { if i != zi { r.e = ren(&r.e, &map); } }
            out.push(x);
        } }
        k += 1;
    }
    dedup(out)
}
fn ren(e: &E, map: &[usize]) -> E { match e { E::Nt(n) => E::Nt(map[*n]), e => e.map_children(&mut |x| ren(x, map)) } }

// ---------------------------------------------------------------------------------------------
// Types

/// All the pairs of shapes of values as the branches of a choice.
pub fn type_shapes() -> Vec<E> {
    let a = || cls("a");
    let any = || E::Any;
    let mut v = vec![lit("a"), a(), seq(vec![a(), any()]), seq(vec![a(), any(), any()]), seq(vec![any(), any(), any(), a()]), opt(a()), plus(a()), act(a(), "?"), asc(a(), "()"), spn(lit("a")), rng(a())];
    for e in [a(), seq(vec![a(), any()]), seq(vec![a(), any(), any()]), opt(a()), plus(a()), asc(a(), "()"), act(a(), "?")] {
        v.push(plus(seq(vec![lit("a"), e.clone()])));
        v.push(opt(seq(vec![lit("a"), e.clone()])));
        v.push(seq(vec![any(), opt(seq(vec![lit("a"), e.clone()]))]));
        v.push(seq(vec![plus(seq(vec![lit("a"), e.clone()])), a()]));
        v.push(seq(vec![any(), any(), e.clone()]));
        v.push(spn(e.clone()));
        v.push(plus(opt(seq(vec![lit("a"), e.clone()]))));
    }
    // constructors in one another
    let cs: Vec<fn(E) -> E> = vec![plus, opt, |e| seq(vec![E::Any, e]), |e| seq(vec![e, E::Any]), spn];
    for x in &cs { for y in &cs { for e in [a(), seq(vec![a(), any()]), act(a(), "?"), spn(lit("a"))] {
        v.push(x(seq(vec![lit("b"), y(seq(vec![lit("c"), e.clone()]))])));
        if e == a() { for z in &cs { v.push(z(seq(vec![lit("a"), x(seq(vec![lit("b"), y(seq(vec![lit("c"), e.clone()]))]))]))); } }
    } } }
    let mut v: Vec<E> = { let mut w: Vec<E> = vec![]; for e in v { if !w.contains(&e) { w.push(e); } } w };
    v.retain(locally_wf);
    v
}

pub fn shape_pairs(thorough: bool) -> Vec<Gram> {
    let s = type_shapes();
    let mut v = vec![];
    for (i, a) in s.iter().enumerate() { for (j, b) in s.iter().enumerate() {
        // the first branch must be able to fail
        let (x, y) = (seq(vec![lit("b"), a.clone()]), seq(vec![lit("c"), b.clone()]));
        if thorough || i < 60 && j < 60 || (i * 3 + j) % 5 == 0 { v.push(gram1(cho(vec![x.clone(), y.clone()]))); }
        if thorough && (i < 60 && j < 60 || (i + j) % 4 == 0) || (i + j) % if i < 60 && j < 60 { 3 } else { 21 } == 0 {
            v.push(gram1(plus(cho(vec![x.clone(), y.clone(), seq(vec![lit("d"), a.clone()])]))));
            v.push(gram(vec![("r", cho(vec![x.clone(), seq(vec![lit("c"), E::Nt(1)])])), ("s", b.clone())]));
        }
    } }
    for g in v.iter_mut() { number_actions(g); }
    dedup(v)
}

// ---------------------------------------------------------------------------------------------
// Long chains and long cycles of rules

type Link = fn(E) -> E;

/// n rules which call the next one with `base`, except one which calls it with `special`; the last calls the rule `back`, or is `end`.
fn chain(n: usize, base: Link, special: Link, at: usize, last: E, reversed: bool) -> Gram {
    let mut g = Gram { rules: (0..n).map(|i| { let next = if i + 1 < n { E::Nt(i + 1) } else { last.clone() }; crate::model::rule(&format!("n{}", i), if i == at { special(next) } else { base(next) }) }).collect(), ..Default::default() };
    number_actions(&mut g);
    if reversed { g.rules.reverse(); g = g.renumber(&(0..n).rev().collect::<Vec<_>>()); }
    g
}

pub fn chain_sizes(t: bool) -> Vec<usize> { if t { vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34, 48, 63, 64, 65, 66] } else { vec![3, 5, 8, 9, 12, 16, 17, 18, 24, 33, 34] } }

/// Well-formedness along long chains of calls.
pub fn chains(t: bool) -> Vec<Gram> {
    let links: Vec<Link> = vec![|e| e, |e| seq(vec![lit("a"), e]), |e| cho(vec![lit("a"), e]), |e| seq(vec![opt(lit("b")), e]), |e| seq(vec![lit("b"), opt(e)]), |e| seq(vec![not(lit("b")), e]), |e| seq(vec![opt(e), lit("a")]), |e| cho(vec![seq(vec![lit("a"), e]), lit("b")])];
    let tops: Vec<Link> = vec![star, plus, opt, |e| e, |e| cho(vec![e, lit("b")]), |e| cho(vec![lit("b"), e]), |e| seq(vec![e, lit("b")]), not];
    let ends = vec![lit("a"), opt(lit("a")), star(lit("a")), lit(""), not(lit("a")), and(lit("a")), cho(vec![lit("a"), lit("b")])];
    let mut v = vec![];
    let mut k = 0usize;
    for n in chain_sizes(t) {
        for b in &links { for s in &links {
            for at in [0, n / 2, n - 1] { for back in [0, n / 2, n - 1] {
                k += 1;
                if !t && k % 4 != 0 { continue; }
                v.push(chain(n, *b, *s, at, E::Nt(back), k % 8 == 0));
            } }
        } }
        for (i, b) in links.iter().enumerate().filter(|(i, _)| *i != 6) { for (j, top) in tops.iter().enumerate() { for (l, e) in ends.iter().enumerate() {
            if !t && (i + j + l + n) % 3 != 0 { continue; }
            v.push(chain(n, *b, *top, 0, e.clone(), (i + j) % 2 == 0));
        } } }
    }
    dedup(v)
}

/// Types along long chains of calls.
pub fn typed_chains(t: bool) -> Vec<Gram> {
    let links: Vec<Link> = vec![|e| seq(vec![lit("a"), e]), |e| seq(vec![cls("a"), opt(e)]), |e| seq(vec![lit("a"), opt(e)]), |e| cho(vec![cls("a"), seq(vec![lit("b"), e])]), |e| cho(vec![seq(vec![cls("a"), e]), lit("b")]), |e| act(seq(vec![cls("a"), opt(e)]), "?"), |e| asc(seq(vec![cls("a"), opt(e)]), "(^)"), |e| cho(vec![lit("a"), seq(vec![lit("b"), e])]), |e| plus(seq(vec![lit("a"), e])), |e| asc(seq(vec![lit("b"), e]), "()")];
    let ends = vec![lit("a"), cls("a"), seq(vec![cls("a"), E::Any]), asc(lit("a"), "()"), plus(cls("a")), opt(cls("a")), act(lit("a"), "?"), spn(cls("a"))];
    let mut v = vec![];
    let mut k = 0usize;
    for n in chain_sizes(t).into_iter().filter(|n| *n <= 34) {
        for (i, b) in links.iter().enumerate() { for s in &links {
            for at in [0, n / 2, n - 1] { for back in [0, n / 2, n - 1] {
                k += 1;
                if !t && k % 7 != 0 { continue; }
                v.push(chain(n, *b, *s, at, E::Nt(back), k % 2 == 0));
            } }
            // a value which goes through all the rules; the types would nest in one another otherwise
            if i == 0 || i == 2 || i == 7 { for (l, e) in ends.iter().enumerate() { k += 1; if t || (k + l) % 3 == 0 { v.push(chain(n, *b, *s, k % n, e.clone(), l % 2 == 0)); } } }
        } }
    }
    dedup(v)
}

/// Rules which call several others: the number of paths of calls is exponential in the number of rules.
/// The time of the compiler is limited, thus these grammars also show that the analyses end.
pub fn webs(t: bool) -> Vec<Gram> {
    let links: Vec<Link> = vec![|e| e, |e| seq(vec![e, lit("x")]), |e| seq(vec![lit("y"), e]), opt, not, |e| seq(vec![opt(lit("z")), e]), |e| star(seq(vec![lit("y"), e])), and, star, plus, |e| cho(vec![lit("w"), e])];
    let joins: Vec<fn(E, E) -> E> = vec![|a, b| seq(vec![a, b]), |a, b| cho(vec![a, b]), |a, b| seq(vec![a, lit("m"), b]), |a, b| cho(vec![seq(vec![lit("m"), a]), b])];
    let ends = vec![lit("a"), cho(vec![lit("a"), seq(vec![lit("("), E::Nt(0), lit(")")])]), cho(vec![seq(vec![opt(lit("(")), E::Nt(0)]), lit("a")]), opt(lit("a")), cho(vec![seq(vec![lit("("), E::Nt(1)]), lit("a")])];
    let mut v = vec![];
    let mut k = 0usize;
    for n in if t { vec![3, 5, 12, 20, 26, 33, 48] } else { vec![4, 20, 34] } {
        for (x, a) in links.iter().enumerate() { for (y, b) in links.iter().enumerate() { for (z, j) in joins.iter().enumerate() { for (l, e) in ends.iter().enumerate() {
            // the second call goes to the same rule, to the one after, or anywhere below
            for step in 1..4usize {
                k += 1;
                let always = x < 2 && y < 3 && z < 2;
                if !t && (!always && (x * 5 + y * 3 + z + l * 7 + step * 2 + n) % 67 != 0 || always && (x + y + l + step) % 2 != 0) || t && (x * 5 + y * 3 + z + l * 7 + step * 2 + n) % 5 != 0 { continue; }
                let mut g = Gram { rules: (0..n).map(|i| {
                    let far = match step { 3 => i + 1 + (i * 7 + 3) % (n - i), s => i + s };
                    let body = if i + 1 == n { e.clone() } else { j(a(E::Nt(i + 1)), b(E::Nt(far.min(n - 1)))) };
                    crate::model::rule(&format!("n{}", i), body)
                }).collect(), ..Default::default() };
                if k % 5 == 0 { g.rules.reverse(); g = g.renumber(&(0..n).rev().collect::<Vec<_>>()); }
                v.push(g);
            }
        } } } }
    }
    // every rule calls every other one
    for n in if t { vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 11] } else { vec![3, 6, 9] } { for (x, a) in links.iter().enumerate() { for form in 0..3 {
        if !t && (x + form + n) % 3 != 0 { continue; }
        let all = |i: usize| -> Vec<E> { (0..n).map(|j| { let c = a(E::Nt((i + j) % n)); if form == 2 { c } else { seq(vec![lit(&format!("{}", j)), c]) } }).collect() };
        v.push(Gram { rules: (0..n).map(|i| { let mut b = all(i); b.push(lit("x")); crate::model::rule(&format!("n{}", i), if form == 0 { cho(b) } else { seq(vec![lit("a"), cho(b)]) }) }).collect(), ..Default::default() });
    } } }
    dedup(v)
}
