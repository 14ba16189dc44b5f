//! Checks of what relates grammars with each other and with the outside: order, names, external rules, types, ascriptions, size.
use crate::checks::*;
use crate::checks3::*;
use crate::gens::*;
use crate::infra::*;
use crate::json::J;
use crate::model::*;
use crate::probe::*;
use crate::typing::infer;
use std::collections::BTreeSet;

pub fn act_ext(e: E, name: &str) -> E { E::Act(Box::new(e), Action { name: name.into(), boxed: false, known: false }) }

/// Declares the external rules used: x matches any character, y matches "b".
fn externals(mut g: Gram) -> Gram {
    fn max(e: &E) -> Option<usize> { match e { E::Ext(n, _) => Some(*n), e => e.children().into_iter().filter_map(max).max() } }
    let n = g.rules.iter().filter_map(|r| max(&r.e)).max();
    if let Some(n) = n { while g.rules.len() <= n { g.rules.push(Rule { name: format!("x{}", g.rules.len()), asc: Some("V".into()), e: E::Any, external: true }); } }
    g
}

// ---------------------------------------------------------------------------------------------
// Types

pub fn typed_space(t: bool) -> Vec<Gram> {
    let f_act: fn(E) -> E = |e| act(e, "?");
    let f_num: fn(E) -> E = |e| act(e, "?num");
    let f_unit: fn(E) -> E = |e| act(e, "?unit");
    let f_ext: fn(E) -> E = |e| act_ext(e, "?");
    let f_inv: fn(E) -> E = |e| asc(e, "(^)");
    let f_v: fn(E) -> E = |e| asc(e, "V");
    let f_nil: fn(E) -> E = |e| asc(e, "()");
    let mut v: Vec<Gram> = vec![];
    // every small expression
    let atoms = vec![lit("a"), cls("b"), act(cls("a"), "?"), act_ext(lit("b"), "?"), act(lit("a"), "?unit")];
    v.extend(Space { un: "?*&", seq: 2, cho: 2, more: vec![f_inv, f_v], ..Space::with(atoms.clone()) }.upto(4).into_iter().map(gram1));
    v.extend(Space { un: "*", seq: 2, cho: 2, more: vec![f_act, f_num, f_unit, f_ext, f_inv, f_v, f_nil, spn, rng], ..Space::with(vec![lit("a"), cls("b")]) }.upto(4).into_iter().map(gram1));
    if t { v.extend(Space { un: "?&", seq: 2, cho: 2, more: vec![f_inv], ..Space::with(atoms.clone()) }.upto(5).into_iter().map(gram1)); }
    // pairs of branches in every context
    let br: Vec<E> = vec![lit("a"), cls("a"), seq(vec![cls("a"), cls("b")]), opt(cls("a")), plus(cls("a")), plus(opt(seq(vec![cls("a"), cls("b")]))), act(cls("a"), "?"), act(lit("a"), "?num"), act(lit("a"), "?unit"), act_ext(cls("a"), "?"),
        asc(cls("a"), "V"), asc(cls("a"), "()"), asc(cls("a"), "(^)"), spn(cls("a")), rng(cls("a")), plus(act(cls("a"), "?")), seq(vec![cls("a"), act(cls("b"), "?")]), seq(vec![act_ext(cls("a"), "?"), cls("b")]), E::Ext(1, "em::x".into()), asc(E::Ext(1, "em::x".into()), "V"), and(cls("a")), act_box(lit("a"), "?"), plus(act_ext(cls("a"), "?"))];
    let cx: Vec<fn(E) -> E> = vec![|e| e, opt, |e| plus(seq(vec![lit("b"), e])), and, |e| seq(vec![not(e), E::Any]), |e| seq(vec![e, cls("b")]), |e| seq(vec![lit("b"), e]), |e| seq(vec![act(cls("b"), "?"), e]), |e| asc(e, "(^)"), |e| asc(e, "()"), |e| asc(e, "V"), |e| act(e, "?"), |e| act_ext(e, "?"),
        spn, rng, |e| seq(vec![spn(lit("b")), e]), |e| cho(vec![e, cls("b")]), |e| cho(vec![lit("b"), e]), |e| act(e, "?unit"), |e| asc(act_ext(e, "?"), "V")];
    for a in &br { for b in &br { for (i, c) in cx.iter().enumerate() {
        if a == b && i > 0 && i % 3 != 0 { continue; }
        v.push(gram1(c(cho(vec![a.clone(), b.clone()]))));
        if t { for d in &cx { v.push(gram1(d(c(cho(vec![a.clone(), b.clone()]))))); } }
    } } }
    // three branches
    for a in &br { for b in &br { for c in [lit("b"), cls("b"), act(cls("b"), "?"), act_ext(cls("b"), "?"), asc(cls("b"), "()")] { v.push(gram1(cho(vec![a.clone(), b.clone(), c]))); } } }
    // a single one in pairs of contexts
    for a in &br { for c in &cx { for d in &cx { v.push(gram1(c(d(a.clone())))); } } }
    // through another rule, with or without ascriptions
    let call: Vec<fn(E) -> E> = vec![|e| e, opt, and, |e| cho(vec![e, cls("b")]), |e| cho(vec![act(cls("b"), "?"), e]), |e| act(e, "?"), |e| asc(e, "V"), |e| asc(e, "(^)"), |e| seq(vec![e, cls("b")]), |e| rng(e), |e| cho(vec![lit("b"), e])];
    for a in &br { for c in &call { for ra in [None, Some("V"), Some("(^)"), Some("()"), Some("char"), Some("Vec<char>")] { for sa in [None, Some("V"), Some("(^)"), Some("()"), Some("char")] {
        if !t && ra.is_some() && sa.is_some() { continue; }
        let mut e = a.clone();
        if let E::Ext(..) = e { e = seq(vec![lit("b"), e]); }
        fn up(e: &E) -> E { match e { E::Ext(_, p) => E::Ext(2, p.clone()), e => e.map_children(&mut |x| up(x)) } }
        let mut g = gram(vec![("r", c(E::Nt(1))), ("s", up(&e))]);
        g.rules[0].asc = ra.map(|x| x.into());
        g.rules[1].asc = sa.map(|x| x.into());
        v.push(g);
    } } } }
    let mut v: Vec<Gram> = v.into_iter().map(externals).collect();
    for g in v.iter_mut() { number_actions(g); }
    // functions of the grammar with the last name of the path of an action
    let mut homonyms = vec![];
    for c in &cx { for d in &cx[..if t { cx.len() } else { 5 }] { for s in ["pub fn act{}(c: char) -> V { V(String::new()) }", "fn act{}() -> u32 { 0 }", "fn act{}(c: char) { }"] {
        let mut g = gram1(d(c(act_ext(cls("a"), "?"))));
        number_actions(&mut g);
        for k in 0..3 { g.items.push(s.replace("{}", &k.to_string())); }
        fn known(e: &E, o: &mut Vec<String>) { if let E::Act(_, a) = e { if a.known { o.push(a.name.clone()); } } for c in e.children() { known(c, o); } }
        let mut own = vec![];
        known(&g.rules[0].e, &mut own);
        g.items.retain(|i| !own.iter().any(|n| i.contains(&format!("fn {}(", n))));
        homonyms.push(g);
    } } }
    v.extend(homonyms);
    dedup(v)
}

pub fn c25(ctx: &Ctx) {
    ctx.assume("the reference typing is mc/src/typing.rs, written from the manual; the types of Rust (actions, ascriptions) are compared by rustc, Oak only sees that they are Rust types");
    let t = ctx.thorough;
    let mut v = typed_space(t);
    v.extend(crate::checks6::shape_pairs(t));
    let ok = judge_grams(ctx, &v, false);
    // what Oak cannot see, rustc sees: the branches of a choice which are of different Rust types
    let (mut same, mut differ) = (vec![], vec![]);
    for (i, mut c) in ok.into_iter().enumerate() {
        if c.g.rules.iter().any(|r| r.external) { continue; }
        let (g, _) = c.arena();
        if g.nodes.iter().any(|n| matches!(&n.k, K::Asc(x, t) if asc_ty(t) != T::Inv && asc_ty(t) != T::Unit && g.t(*x).rust() != *t)) { continue; }
        c.typed = true;
        if !g.rust_choices() { if t || i % 2 == 0 { differ.push(c); } } else if t || i % 3 == 0 { same.push(c); }
    }
    ctx.note("accepted_compiled", J::Num(same.len() as f64));
    ctx.note("left_to_rustc", J::Num(differ.len() as f64));
    must_fail(ctx, &differ);
    // what is accepted compiles, and gives the values of the model
    run_cases(ctx, &same, &[std_inputs(3)], Opts::default());
}

/// None of these cases compiles.
fn must_fail(ctx: &Ctx, cases: &[Case]) {
    let hd = header(&[vec![]]);
    let idx: Vec<usize> = (0..cases.len()).collect();
    let chunks: Vec<&[usize]> = idx.chunks(((cases.len() + 7) / 8).clamp(20, 500)).collect();
    parallel(&chunks, |ids| {
        if ctx.enough() { return; }
        let units: Vec<Unit> = ids.iter().map(|i| { let (g, _) = cases[*i].arena(); cases[*i].unit(*i, &g) }).collect();
        let c = ctx.compile(&hd, &units, MAIN, &["--emit=metadata"], true);
        for u in &units {
            let (g, _) = cases[u.id].arena();
            if !c.failed.contains_key(&u.id) { ctx.violation(&cases[u.id].source(&g), "the branches of a choice have different types, but the grammar compiles".into(), u.code.clone()); }
        }
        ctx.add(units.len() as u64, units.len() as u64, units.len() as u64);
    });
}

// ---------------------------------------------------------------------------------------------
// Ascriptions

/// The ascriptions with Rust types, which Oak does not compare, tell what rustc finds.
pub fn honest(g: &G) -> bool {
    g.nodes.iter().all(|n| match &n.k { K::Asc(x, t) if !asc_ty(t).unit_kind() => g.t(*x).rust() == *t || matches!(g.nodes[*x].ty, Some(Err(_))), _ => true })
}

pub fn c26(ctx: &Ctx) {
    ctx.assume(SEM);
    ctx.assume("an ascription which spells the inferred tuple is not documented: it is left aside");
    let t = ctx.thorough;
    let tys: &[fn(E) -> E] = &[|e| asc(e, "()"), |e| asc(e, "(^)"), |e| asc(e, "V"), |e| asc(e, "char"), |e| asc(e, "Vec<char>"), |e| asc(e, "Option<char>"), |e| asc(e, "u32")];
    let base: Vec<E> = Space { un: "?*&", seq: 2, cho: 2, ..Space::with(vec![lit("a"), cls("b"), act(cls("a"), "?")]) }.upto(if t { 4 } else { 3 });
    let mut v = fam_wrap(&base, if t { 2 } else { 2 }, tys);
    let kinds = vec![act(cls("a"), "?num"), act(lit("a"), "?chr"), act(plus(cls("a")), "?vec"), act_ext(cls("a"), "?"), act_ext(lit("a"), "?num"), act_ext(lit("a"), "?vec"), E::Ext(1, "em::x".into()), spn(cls("a")), rng(cls("a")), act(lit("a"), "?unit"), act_box(cls("a"), "?")];
    let more: Vec<E> = Space { un: "?*", seq: 2, cho: 2, ..Space::with(kinds.into_iter().chain(vec![cls("b")]).collect()) }.upto(3);
    v.extend(fam_wrap(&more, if t { 2 } else { 1 }, &[|e| asc(e, "()"), |e| asc(e, "(^)"), |e| asc(e, "V"), |e| asc(e, "char"), |e| asc(e, "Vec<char>"), |e| asc(e, "u32"), |e| asc(e, "Box<V>"), |e| asc(e, "Span")]));
    // on the rule, and on the call of a rule
    for e in base.iter().chain(more.iter()) { if e.size() <= 3 {
        fn up(e: &E) -> E { match e { E::Ext(_, p) => E::Ext(2, p.clone()), e => e.map_children(&mut |x| up(x)) } }
        for ty in ["()", "(^)", "V", "char", "Vec<char>", "Option<char>", "u32", "Box<V>"] {
            let mut g = gram1(e.clone());
            g.rules[0].asc = Some(ty.into());
            v.push(g.clone());
            if e.size() <= 2 {
                let mut g = gram(vec![("r", seq(vec![E::Nt(1), opt(cls("b"))])), ("s", up(e))]);
                g.rules[1].asc = Some(ty.into());
                v.push(g);
                let g = gram(vec![("r", seq(vec![asc(E::Nt(1), ty), opt(cls("b"))])), ("s", up(e))]);
                v.push(g);
                for tz in ["()", "(^)", "char"] { let mut g = gram(vec![("r", seq(vec![asc(E::Nt(1), tz), opt(cls("b"))])), ("s", up(e))]); g.rules[1].asc = Some(ty.into()); v.push(g); }
            }
        }
    } }
    let mut v: Vec<Gram> = v.into_iter().map(externals).collect();
    for g in v.iter_mut() { number_actions(g); }
    let v = dedup(v);
    let ok = judge_grams(ctx, &v, false);
    let mut run = vec![];
    for c in ok {
        if c.g.rules.iter().any(|r| r.external) { continue; }
        let (g, _) = c.arena();
        if !honest(&g) || g.nodes.iter().any(|n| matches!(n.ty, Some(Err(_)))) || !g.rust_choices() { continue; }
        let mut c = c;
        c.typed = true;
        run.push(c);
    }
    ctx.note("accepted_run", J::Num(run.len() as f64));
    run_cases(ctx, &run, &[std_inputs(4)], Opts::default());
}

/// What Oak and rustc say of the grammars of the file $MC_LINES, one per line (a tool, not a check).
pub fn lines(ctx: &Ctx) {
    let ts: Vec<String> = std::fs::read_to_string(std::env::var("MC_LINES").unwrap()).unwrap().lines().map(|l| l.to_string()).filter(|l| !l.is_empty()).collect();
    let j = verdicts(ctx, &ts);
    let units: Vec<Unit> = ts.iter().enumerate().map(|(i, t)| Unit { id: i, code: format!("mod g{} {{ use super::rt::*; use oak::oak; mod ea {{ use super::*; pub fn act0(c: char) -> V {{ V(c.to_string()) }} }} oak! {{ {} }} }}", i, t), table: String::new() }).collect();
    let c = ctx.compile(&header(&[vec![]]), &units, MAIN, &["--emit=metadata"], true);
    for i in 0..ts.len() { println!("{}\n    {} {:?}\n    rustc: {:?}", ts[i], j[i].v.text(), j[i].warn, c.failed.get(&i)); }
}
