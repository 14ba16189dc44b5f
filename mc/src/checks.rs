//! The checks, one function per property.
use crate::checks5::variety;
use crate::checks6::*;
use crate::gens::*;
use crate::infra::*;
use crate::json::J;
use crate::model::*;
use crate::probe::*;

pub const TABLE: &[(&str, fn(&Ctx))] = &[("C01", c01), ("C02", c02), ("C03", c03), ("C04", c04), ("C05", c05), ("C06", c06), ("C07", c07), ("C08", c08), ("C09", c09), ("C10", c10), ("C11", c11), ("C12", c12), ("C13", c13), ("C14", c14), ("C15", c15), ("C16", c16), ("C17", crate::checks2::c17), ("C18", crate::checks2::c18), ("C19", crate::checks3::c19), ("C21", crate::checks3::c21), ("C20", crate::checks2::c20), ("C24", c24), ("C27", crate::checks3::c27), ("C28", c28), ("C25", crate::checks4::c25), ("C26", crate::checks4::c26), ("C22", crate::checks5::c22), ("C23", crate::checks5::c23), ("C29", crate::checks5::c29), ("C30", crate::checks5::c30), ("C31", crate::checks7::c31), ("C32", crate::checks7::c32), ("C33", crate::checks8::c33), ("lines", crate::checks4::lines), ("sizes", sizes)];

/// Keeps the cases that the reference model accepts.
pub fn keep_valid(cases: Vec<Case>) -> Vec<Case> {
    use std::sync::Mutex;
    let out: Mutex<Vec<usize>> = Mutex::new(vec![]);
    let idx: Vec<usize> = (0..cases.len()).collect();
    let chunks: Vec<&[usize]> = idx.chunks(2000).collect();
    parallel(&chunks, |ids| {
        let mut v = vec![];
        for &i in ids.iter() {
            let (g, t) = cases[i].arena();
            // types without meaning under unit contexts are the subject of C25
            if valid(&g, &t) && g.nodes.iter().all(|n| !matches!(n.ty, Some(Err(_)))) && g.rust_choices() { v.push(i); }
        }
        out.lock().unwrap().extend(v);
    });
    let keep: std::collections::HashSet<usize> = out.into_inner().unwrap().into_iter().collect();
    cases.into_iter().enumerate().filter(|(i, _)| keep.contains(i)).map(|x| x.1).collect()
}

pub fn cases(v: Vec<Gram>, set: usize, mask: u16) -> Vec<Case> { keep_valid(v.into_iter().map(|g| Case::new(g, set, mask)).collect()) }

/// Rules with the type (^) fixed.
pub fn cases_inv(v: Vec<Gram>, set: usize, mask: u16) -> Vec<Case> {
    keep_valid(v.into_iter().map(|g| { let n = g.rules.len(); let mut c = Case::new(g, set, mask); c.rule_ty = vec![Some(T::Inv); n]; c }).collect())
}

pub fn cap<X>(v: Vec<X>, every: usize) -> Vec<X> { if every <= 1 { v } else { v.into_iter().step_by(every).collect() } }

fn sizes(ctx: &Ctx) {
    for (n, v) in [("core5", fam_core(5)), ("lits4", fam_lits(4)), ("deep", fam_deep(false)), ("deepT", fam_deep(true)), ("two3", fam_two(3)), ("two4", fam_two(4)), ("typed3", fam_typed(3)), ("typed4", fam_typed(4)) ] {
        let m = v.len();
        println!("{} {} valid {} {:?}", n, m, cases(v, 0, R).len(), ctx.start.elapsed());
    }
    for (n, v) in [("rec4", fam_rec(4)), ("rec5", fam_rec(5))] { let m = v.len(); println!("{} {} valid {} {:?}", n, m, cases_inv(v, 0, R).len(), ctx.start.elapsed()); }
    let e3 = Space { un: "?*", seq: 3, cho: 2, ..Space::with(vec![cls("a"), lit("a"), cls("b")]) }.upto(4);
    println!("wrap base {}", e3.len());
    let v = fam_wrap(&e3, 2, W_ACTS); let m = v.len(); println!("act wrap {} valid {}", m, cases(v, 0, R).len());
    let v = fam_wrap(&e3, 2, W_SPANS); let m = v.len(); println!("span wrap {} valid {}", m, cases(v, 0, R).len());
    let v = fam_wrap(&e3, 2, W_ALL); let m = v.len(); println!("all wrap {} valid {}", m, cases(v, 0, R).len());
}

pub const SEM: &str = "the reference semantics (PEG, AST types, farthest failure) is mc/src/model.rs, written from the documentation";

fn c01(ctx: &Ctx) {
    ctx.assume(SEM);
    let mut v = cases(fam_core(if ctx.thorough { 6 } else { 5 }), 0, R);
    v.extend(cases(fam_two(if ctx.thorough { 5 } else { 4 }), 0, R));
    v.extend(cases(fam_lits(if ctx.thorough { 5 } else { 4 }), 1, R));
    v.extend(cases(fam_deep(ctx.thorough), 0, R));
    v.extend(cases_inv(fam_rec(5), 0, R));
    if ctx.thorough { v.extend(cases_inv(cap(fam_rec(6), 10), 0, R)); }
    run_cases(ctx, &v, &[std_inputs(if ctx.thorough { 6 } else { 5 }), lit_inputs()], Opts::default());
    variety(ctx, R, None);
}

pub fn lit_inputs() -> Vec<String> {
    let mut v = words(&["a", "b", "é"], 4);
    v.extend(["aaaaa", "ababa", "abaab", "aabab", "ababab", "abaaba", "babab", "éaéab", "abéé"].iter().map(|s| s.to_string()));
    v
}

/// Expressions built on values: no predicate.
pub fn value_exprs(max: usize) -> Vec<E> {
    Space { un: "?*+", ..Space::with(vec![cls("a"), cls("b"), lit("a"), E::Any]) }.upto(max).into_iter().filter(canon_ab).collect()
}
pub fn small_exprs(max: usize) -> Vec<E> {
    Space { un: "?*", seq: 3, cho: 2, ..Space::with(vec![cls("a"), lit("a"), cls("b")]) }.upto(max)
}

/// Two rules, whose values are used.
pub fn fam_two_typed(max: usize) -> Vec<Gram> {
    let subs = vec![
        act(cls("a"), "?"), seq(vec![cls("a"), cls("b")]), asc(lit("a"), "()"), asc(cls("a"), "(^)"), spn(lit("a")), rng(plus(cls("a"))),
        opt(cls("a")), act_box(seq(vec![cls("a"), opt(cls("b"))]), "?"), spn(seq(vec![cls("a"), cls("b")])), star(act(cls("a"), "?")),
        cho(vec![act(cls("a"), "?"), act(seq(vec![lit("b"), cls("a")]), "?")]),
    ];
    let bodies: Vec<E> = Space { un: "?*+", cho: 2, ..Space::with(vec![E::Nt(1), lit("a"), cls("b")]) }.upto(max).into_iter().filter(|e| uses(e, 1)).collect();
    let mut v = vec![];
    for b in &bodies { for s in &subs {
        let mut g = gram(vec![("r", b.clone()), ("s", s.clone())]);
        number_actions(&mut g);
        v.push(g);
    } }
    v
}

pub fn typed_families(ctx: &Ctx, mask: u16) -> Vec<Case> {
    let t = ctx.thorough;
    let mut v = cases(fam_typed(if t { 5 } else { 4 }), 0, mask);
    v.extend(cases(fam_two_typed(if t { 4 } else { 3 }), 0, mask));
    v.extend(cases(fam_wrap(&small_exprs(if t { 4 } else { 3 }), if t { 2 } else { 2 }, W_ALL), 0, mask));
    v
}

fn c02(ctx: &Ctx) {
    let mut v = typed_families(ctx, AGREE);
    v.extend(cases(fam_core(4), 0, AGREE));
    v.extend(cases(fam_two(3), 0, AGREE));
    v.extend(cases(value_exprs(4).into_iter().map(gram1).collect(), 0, AGREE));
    v.extend(cases_inv(fam_rec(4), 0, AGREE));
    v.extend(recursive_values(0, AGREE));
    let f = |c: &Case, _: &G, _: &str, col: &[&str], n: &mut Count| { n.states += 1; n.trans += 2; diff(c.mask, &Obs::default(), col) };
    run_cases(ctx, &v, &[std_inputs(if ctx.thorough { 7 } else { 6 })], Opts { cmp: Some(&f), ..Opts::default() });
    variety(ctx, AGREE, Some(&f));
}

fn c03(ctx: &Ctx) {
    ctx.assume(SEM);
    let m = P | VAL;
    let t = ctx.thorough;
    let mut v = cases(value_exprs(if t { 6 } else { 5 }).into_iter().map(gram1).collect(), 0, m);
    v.extend(cases(fam_two(if t { 5 } else { 4 }), 0, m));
    v.extend(cases(fam_two_typed(3), 0, m));
    v.extend(cases(fam_typed(if t { 5 } else { 4 }), 0, m));
    v.extend(cases(fam_core(4), 0, m));
    v.extend(recursive_values(0, m));
    // three levels of value constructors
    let cx: Vec<Box<dyn Fn(E) -> E + Sync + Send>> = contexts(&[cls("b"), lit("b")]).into_iter().enumerate().filter(|(i, _)| *i != 3 && *i != 4).map(|x| x.1).collect();
    let mut deep = vec![];
    for a in &cx { for b in &cx { for c in &cx { for e in [cls("a"), E::Any, opt(cls("a")), seq(vec![cls("a"), cls("b")])] { let x = a(b(c(e))); if locally_wf(&x) { deep.push(gram1(x)) } } } } }
    v.extend(cases(deep, 0, m));
    run_cases(ctx, &v, &[std_inputs(5)], Opts::default());
    variety(ctx, m, None);
}

/// Recursive rules whose type is given by actions.
pub fn recursive_values(set: usize, mask: u16) -> Vec<Case> {
    let r = || E::Nt(0);
    let mut es: Vec<E> = vec![
        act(seq(vec![cls("a"), opt(r())]), "?"),
        act(seq(vec![cls("a"), star(r()), cls("b")]), "?"),
        act_box(seq(vec![cls("a"), opt(r())]), "?"),
        cho(vec![act(seq(vec![cls("a"), r(), cls("b")]), "?"), act(cls("a"), "?")]),
        cho(vec![act(seq(vec![lit("a"), r(), r()]), "?"), act(lit("b"), "?")]),
        cho(vec![act_box(seq(vec![cls("a"), r()]), "?"), act_box(lit("b"), "?")]),
        act(seq(vec![spn(cls("a")), opt(r())]), "?"),
        act(spn(seq(vec![cls("a"), opt(r()), cls("b")])), "?"),
        act(seq(vec![and(lit("a")), E::Any, opt(seq(vec![lit("b"), r()]))]), "?"),
        cho(vec![seq(vec![lit("a"), r(), lit("b")]), cls("b")]),
        cho(vec![cls("a"), seq(vec![lit("b"), r()])]),
        cho(vec![cls("a"), seq(vec![lit("b"), r()]), seq(vec![lit("é"), r(), lit("b")])]),
        cho(vec![seq(vec![cls("a"), E::Any]), seq(vec![lit("b"), r()])]),
        cho(vec![star(cls("a")), lit("b")]),
    ];
    es.pop();
    let mut out = vec![];
    for e in es {
        let ty = match &e {
            E::Cho(v) if v.iter().any(|x| matches!(x, E::Cls(_))) => T::Char,
            E::Cho(v) => match &v[0] { E::Act(_, a) => if a.boxed { T::Rust("Box<V>".into()) } else { T::Rust("V".into()) }, _ => T::Tup(vec![T::Char, T::Char]) },
            E::Act(_, a) if a.boxed => T::Rust("Box<V>".into()),
            _ => T::Rust("V".into()),
        };
        let mut g = gram1(e);
        number_actions(&mut g);
        let mut c = Case::new(g, set, mask);
        c.rule_ty = vec![Some(ty)];
        out.push(c);
    }
    keep_valid(out)
}

/// Compiles without running.
pub fn compile_only(ctx: &Ctx, cases: &[Case]) {
    let hd = header(&[vec![]]);
    let chunk = ((cases.len() + 7) / 8).clamp(20, 800);
    let idx: Vec<usize> = (0..cases.len()).collect();
    let chunks: Vec<&[usize]> = idx.chunks(chunk).collect();
    parallel(&chunks, |ids| {
        if ctx.enough() { return; }
        let mut units = vec![];
        let (mut st, mut tr) = (0, 0);
        for &i in ids.iter() {
            let (g, _) = cases[i].arena();
            st += g.nodes.len() as u64;
            tr += g.nodes.iter().enumerate().map(|(i, _)| g.kids(i).len() as u64).sum::<u64>();
            units.push(cases[i].unit(i, &g));
        }
        let c = ctx.compile(&hd, &units, MAIN, &["--emit=metadata"], true);
        for (id, why) in &c.failed {
            let what = match why { CompileFail::Diags(v) => v.join(" | "), CompileFail::Crash(s) => s.clone() };
            let g = cases[*id].arena().0;
            let ty = if cases[*id].typed { format!(" with the type {}", g.ty_of_rule(cases[*id].rule).rust()) } else { String::new() };
            ctx.violation(&cases[*id].source(&g), format!("this grammar must compile{}: {}", ty, what), units.iter().find(|u| u.id == *id).unwrap().code.clone());
        }
        ctx.add(st, tr, (ids.len() - c.failed.len()) as u64);
        ctx.grammars.fetch_add(ids.len() as u64, std::sync::atomic::Ordering::Relaxed);
    });
    let step = (cases.len() / 5).max(1);
    for c in cases.iter().step_by(step) { let g = c.arena().0; ctx.sample(format!("{} : {}", c.source(&g), g.ty_of_rule(c.rule).rust())); }
}

fn c04(ctx: &Ctx) {
    ctx.assume("states are the expressions typed by the reference inference, transitions the inference steps");
    let t = ctx.thorough;
    let mut v = typed_families(ctx, 0);
    v.extend(cases(fam_core(if t { 5 } else { 4 }), 0, 0));
    v.extend(cases(value_exprs(if t { 6 } else { 5 }).into_iter().map(gram1).collect(), 0, 0));
    v.extend(cases(fam_two(4), 0, 0));
    v.extend(recursive_values(0, 0));
    v.extend(cases(unit_families(t), 0, 0));
    v.extend(return_types(0));
    for c in v.iter_mut() { c.typed = true; }
    compile_only(ctx, &v);
}

/// (^) and () at every place of a small expression, and sequences which reduce to unit.
fn unit_families(thorough: bool) -> Vec<Gram> {
    let atoms = vec![lit("a"), asc(lit("a"), "()"), asc(cls("a"), "(^)"), cls("a"), and(lit("b")), asc(cls("b"), "()")];
    Space { un: "?*", seq: 3, cho: 2, ..Space::with(atoms) }.upto(if thorough { 6 } else { 5 }).into_iter().filter(|e| uses_asc(e)).filter(|e| e.size() <= if thorough { 6 } else { 5 }).map(gram1).collect()
}
fn uses_asc(e: &E) -> bool { matches!(e, E::Asc(..)) || e.children().into_iter().any(uses_asc) }

fn c05(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut v = typed_families(ctx, 0);
    v.extend(cases(fam_core(4), 0, 0));
    // choices under everything, with components around
    let cx: Vec<Box<dyn Fn(E) -> E + Sync + Send>> = {
        let mut c = contexts(&[cls("b"), spn(cls("b")), lit("b")]);
        c.push(Box::new(|e| act(e, "?")));
        c.push(Box::new(|e| act_box(e, "?")));
        c.push(Box::new(spn));
        c.push(Box::new(rng));
        c.push(Box::new(|e| asc(e, "()")));
        c
    };
    let holes = vec![
        cho(vec![cls("a"), cls("b")]), cho(vec![seq(vec![cls("a"), cls("b")]), seq(vec![E::Any, lit("a"), cls("a")])]),
        cho(vec![act(cls("a"), "?"), act(seq(vec![cls("b"), E::Any]), "?"), act(lit("b"), "?")]), cho(vec![lit("a"), lit("b")]),
        cho(vec![opt(cls("a")), seq(vec![lit("b"), opt(E::Any)])]), seq(vec![cho(vec![cls("a"), cls("b")]), cho(vec![cls("a"), cls("b")])]),
        star(cho(vec![cls("a"), seq(vec![lit("b"), cls("a")])])), spn(cho(vec![cls("a"), cls("b")])),
    ];
    let mut deep = vec![];
    for a in &cx { for b in &cx { for h in &holes {
        let mut g = gram1(a(b(h.clone())));
        number_actions(&mut g);
        deep.push(g);
        if t { for c in &cx { let mut g = gram1(a(b(c(h.clone())))); number_actions(&mut g); deep.push(g); } }
    } } }
    v.extend(cases(deep, 0, 0));
    v.extend(cases(fam_two(3), 0, 0));
    v.extend(recursive_values(0, 0));
    v.extend(cases(nested_spans(false), 0, 0));
    let mut f = action_forms(0, 0);
    for c in f.iter_mut() { c.typed = true; }
    v.extend(f);
    v.extend(return_types(0));
    compile_only(ctx, &v);
}

fn c08(ctx: &Ctx) {
    ctx.assume(SEM);
    let t = ctx.thorough;
    let m = RE | PE;
    let mut v = cases(fam_core(if t { 6 } else { 5 }), 0, m);
    v.extend(cases(fam_lits(4), 1, m));
    v.extend(cases(fam_two(if t { 5 } else { 4 }), 0, m));
    v.extend(cases(fam_typed(if t { 5 } else { 4 }), 0, m));
    v.extend(cases_inv(fam_rec(5), 0, m));
    v.extend(recursive_values(0, m));
    if t { v.extend(cases(fam_deep(true), 0, m)); }
    let mut ins = vec![std_inputs(4), lit_inputs()];
    let ns: Vec<usize> = if t { (1..=33).chain(vec![40, 54, 60, 64, 65, 100, 128, 129, 255, 256, 257, 300, 513]).collect() } else { (1..=12).chain(vec![16, 17, 20, 32, 33, 54, 65, 129, 257]).collect() };
    add_many_expected(&mut v, &mut ins, &ns, m);
    run_cases(ctx, &v, &ins, Opts::default());
    variety(ctx, m, None);
}

fn c10(ctx: &Ctx) {
    ctx.assume(SEM);
    let t = ctx.thorough;
    let m = LOG | VAL | P;
    let mut v = cases(fam_wrap(&small_exprs(4), if t { 3 } else { 2 }, W_ACT), 0, m);
    v.extend(cases(fam_wrap(&value_exprs(3), 3, W_ACTS), 0, m));
    v.extend(cases(fam_two_typed(if t { 4 } else { 3 }), 0, m));
    v.extend(cases(fam_typed(if t { 5 } else { 4 }), 0, m));
    v.extend(recursive_values(0, m));
    v.extend(action_forms(0, m));
    run_cases(ctx, &v, &[std_inputs(5)], Opts::default());
    variety(ctx, m, None);
}

fn c11(ctx: &Ctx) {
    ctx.assume(SEM);
    let t = ctx.thorough;
    let m = R | P | LOG | RLOG;
    let inner: Vec<E> = {
        let base = small_exprs(3);
        let mut v = vec![];
        for e in &base { for sel in 1u32..(1 << e.size()) { if sel.count_ones() <= 2 { v.push(wrap(e, sel, &|c, _| act(c, "?"))); } } }
        v
    };
    let units: Vec<fn(E) -> E> = vec![and, |e| seq(vec![not(e), E::Any]), |e| asc(e, "()"), |e| asc(e, "(^)"), rng];
    let outer: Vec<Box<dyn Fn(E) -> E>> = vec![
        Box::new(|e| e), Box::new(|e| seq(vec![act(cls("a"), "?"), e])), Box::new(|e| seq(vec![e, act(E::Any, "?")])),
        Box::new(|e| cho(vec![seq(vec![e, act(cls("b"), "?")]), act(E::Any, "?")])), Box::new(|e| star(seq(vec![e, act(cls("a"), "?")]))), Box::new(|e| act(seq(vec![cls("b"), e]), "?")),
    ];
    let mut gs = vec![];
    for (i, o) in outer.iter().enumerate() { for u in &units { for (j, e) in inner.iter().enumerate() {
        if !t && i > 0 && (i + j) % 3 != 0 { continue; }
        gs.push(gram1(o(u(e.clone()))));
    } } }
    for e in &inner { for ty in ["()", "(^)"] {
        let mut g = gram1(e.clone());
        g.rules[0].asc = Some(ty.into());
        gs.push(g);
        let mut g = gram(vec![("r", seq(vec![act(cls("a"), "?"), E::Nt(1)])), ("s", e.clone())]);
        g.rules[1].asc = Some(ty.into());
        gs.push(g);
    } }
    for g in gs.iter_mut() { number_actions(g); }
    let mut v = cases(gs, 0, m);
    // rules whose type is reduced to (^)
    let poly: Vec<Vec<(&str, E)>> = vec![
        vec![("r", seq(vec![act(cls("a"), "?"), opt(E::Nt(0))]))],
        vec![("r", seq(vec![act(cls("a"), "?"), E::Nt(1)])), ("s", seq(vec![act(cls("b"), "?"), opt(E::Nt(0))]))],
        vec![("r", plus(seq(vec![lit("a"), act(cls("b"), "?"), star(E::Nt(0))])))],
    ];
    for p in poly {
        let mut g = gram(p);
        number_actions(&mut g);
        let n = g.rules.len();
        let mut c = Case::new(g, 0, m);
        c.rule_ty = vec![Some(T::Inv); n];
        // the actions are known by their calls only
        v.push(c);
    }
    // actions of the rule called are called when its value is used, and only then
    v.extend(cases(fam_two_typed(3), 0, RLOG | R | P));
    run_cases(ctx, &v, &[std_inputs(4)], Opts::default());
}

fn c12(ctx: &Ctx) {
    ctx.assume(SEM);
    let t = ctx.thorough;
    let m = P | VAL;
    let e = Space { un: "?*+", seq: 3, cho: 2, ..Space::with(vec![cls("a"), lit("a"), E::Any]) }.upto(if t { 4 } else { 3 });
    let mut v = cases(fam_wrap(&e, 3, W_SPANS), 0, m);
    let e4: Vec<E> = Space { un: "?*", seq: 3, cho: 2, ..Space::with(vec![cls("a"), lit("b")]) }.upto(4).into_iter().filter(|e| e.size() == 4).collect();
    v.extend(cases(fam_wrap(&e4, 2, W_SPANS), 0, m));
    let f: &[fn(E) -> E] = &[spn, rng, |e| act(e, "?"), |e| asc(e, "()")];
    v.extend(cases(fam_wrap(&Space { un: "?*", seq: 2, cho: 2, ..Space::with(vec![cls("a"), lit("b")]) }.upto(3), 2, f), 0, m));
    v.extend(cases(fam_two_typed(3), 0, m));
    v.extend(cases(nested_spans(t), 0, m));
    let mut ins = words(&["a", "é"], 4);
    ins.extend(words(&["a", "b", "é"], 3));
    ins.extend(words(&["a", "b"], 4).into_iter().filter(|w| w.len() == 4));
    run_cases(ctx, &dedup_cases(v), &[ins], Opts::default());
    variety(ctx, m, None);
}

pub fn dedup_cases(v: Vec<Case>) -> Vec<Case> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|c| seen.insert(c.g.render())).collect()
}

// ---------------------------------------------------------------------------------------------
// Well-formedness

/// Non-recursive expressions, well-formed or not.
pub fn wf_exprs(max: usize) -> Vec<Gram> {
    let mut v: Vec<Gram> = Space { prune: false, ..Space::with(vec![lit("a"), lit(""), asc(E::Any, "(^)")]) }.upto(max).into_iter().map(gram1).collect();
    // predicates of sub-rules
    let subs = vec![lit("a"), lit(""), opt(lit("a")), not(lit("a")), star(lit("a")), cho(vec![lit("a"), lit("")])];
    let b = Space { prune: false, seq: 2, cho: 2, ..Space::with(vec![E::Nt(1), lit("a")]) }.upto(max - 1);
    for e in b.into_iter().filter(|e| uses(e, 1)) { for s in &subs { v.push(gram(vec![("r", e.clone()), ("s", s.clone())])); } }
    v
}

/// Recursive rules, with or without left recursion.
pub fn wf_rec(thorough: bool) -> Vec<Gram> {
    let t = thorough as usize;
    let mut v: Vec<Gram> = vec![];
    for e in (Space { prune: false, ..Space::with(vec![E::Nt(0), lit("a")]) }).upto(5 + t) { if uses(&e, 0) { v.push(gram1(e)) } }
    let side = |n: usize| -> Vec<E> { Space { prune: false, un: "?*&!", seq: 2, cho: 2, ..Space::with(vec![E::Nt(n), lit("a"), lit("")]) }.upto(3).into_iter().filter(|e| uses(e, n)).collect() };
    for a in side(1) { for b in side(0) { v.push(gram(vec![("r", a.clone()), ("s", b)])) } }
    let tm: Vec<fn(E) -> E> = rec_templates();
    for a in &tm { for b in &tm { for c in &tm { v.push(gram(vec![("r", a(E::Nt(1))), ("s", b(E::Nt(2))), ("t", c(E::Nt(0)))])) } } }
    // a nullable rule before the recursive call
    for n in [opt(lit("b")), star(lit("b")), and(lit("b")), not(lit("b")), lit(""), cho(vec![lit("b"), lit("")]), lit("b"), plus(lit("b")), cho(vec![lit("b"), lit("a")]), seq(vec![opt(lit("b")), opt(lit("a"))]), seq(vec![opt(lit("b")), lit("a")]), E::Nt(2)] {
        for a in &tm {
            for k in 0..4 {
                let e = a(E::Nt(0));
                let e = match k { 0 => seq(vec![E::Nt(1), e]), 1 => cho(vec![seq(vec![E::Nt(1), e]), lit("c")]), 2 => seq(vec![lit("c"), opt(seq(vec![E::Nt(1), e]))]), _ => seq(vec![E::Nt(1), E::Nt(1), opt(e)]) };
                for last in [opt(lit("c")), lit("c")] {
                    v.push(gram(vec![("r", e.clone()), ("s", n.clone()), ("t", last.clone())]));
                    v.push(gram(vec![("s2", lit("c")), ("s", n.clone()), ("t", last), ("r", e.clone())]).renumber(&[3, 1, 2]));
                }
            }
        }
    }
    v
}

pub fn rec_templates() -> Vec<fn(E) -> E> {
    vec![
        |e| e, |e| seq(vec![lit("a"), e]), |e| seq(vec![e, lit("a")]), |e| cho(vec![lit("a"), e]), |e| cho(vec![e, lit("a")]), |e| seq(vec![opt(lit("b")), e]),
        |e| seq(vec![star(lit("b")), e]), |e| seq(vec![plus(lit("b")), opt(e)]), |e| seq(vec![and(e), lit("a")]), |e| seq(vec![not(e), asc(E::Any, "(^)")]), |e| opt(e),
        |e| seq(vec![cho(vec![lit("a"), lit("")]), e]), |e| cho(vec![seq(vec![lit("a"), e]), lit("b")]), |e| seq(vec![not(lit("a")), e]),
    ]
}

/// Left recursions hidden under what does not change the match.
fn wf_hidden() -> Vec<Gram> {
    let hide: Vec<fn(E) -> E> = vec![spn, rng, |e| asc(e, "(^)"), |e| asc(e, "()"), |e| seq(vec![spn(opt(lit("b"))), e]), |e| seq(vec![rng(star(lit("b"))), e]), |e| act(e, "?"), |e| seq(vec![act(opt(E::Any), "?"), e]), |e| seq(vec![asc(opt(E::Any), "(^)"), e])];
    let tm = rec_templates();
    let mut v = vec![];
    for h in &hide { for a in &tm { for b in &tm {
        let mut g = gram(vec![("r", a(h(E::Nt(1)))), ("s", b(E::Nt(0)))]);
        number_actions(&mut g);
        v.push(g);
        let mut g = gram(vec![("r", h(a(b(E::Nt(0)))))]);
        number_actions(&mut g);
        v.push(g);
    } } }
    v
}

pub fn wf_of(g: &Gram) -> std::collections::BTreeSet<WErr> { match well_formed(&G::new(g)) { Ok(()) => Default::default(), Err(e) => e } }

pub fn texts(v: &[Gram]) -> Vec<String> { v.iter().map(|g| { let mut s = g.render(); for (_, d, _) in G::new(g).action_decls() { s.push(' '); s.push_str(&d); } s }).collect() }

fn c06(ctx: &Ctx) {
    ctx.assume("left recursion and looping repetitions are decided by the reference model for the attributes of Ford (can fail, can succeed, always consumes)");
    let mut v = dedup(wf_rec(ctx.thorough));
    v.extend(wf_exprs(if ctx.thorough { 5 } else { 4 }));
    v.extend(prefixed_recursion(if ctx.thorough { 5 } else { 4 }));
    v.extend(rounds(ctx.thorough));
    v.extend(chains(ctx.thorough));
    let hidden_from = v.len();
    v.extend(dedup(wf_hidden()));
    let webs_from = v.len();
    v.extend(webs(ctx.thorough));
    let ts = texts(&v);
    let j = verdicts(ctx, &ts);
    let mut run = vec![];
    let mut n = Count::default();
    for (i, g) in v.iter().enumerate() {
        let m = wf_of(g);
        let looping = m.contains(&WErr::Loop) || m.contains(&WErr::LeftRec);
        n.states += G::new(g).nodes.len() as u64;
        n.trans += g.rules.len() as u64;
        match &j[i].v {
            Verdict::Accepted if looping => ctx.violation(&ts[i], format!("a grammar which may loop is accepted ({:?})", m), ts[i].clone()),
            Verdict::Crash(s) => ctx.violation(&ts[i], format!("the compiler does not answer: {}", s), ts[i].clone()),
            Verdict::Accepted if g.rules.len() > 9 && i % 6 > 0 => (),
            Verdict::Accepted if i >= webs_from => (),
            Verdict::Accepted if i < hidden_from || !uses_act(g) => {
                let mut c = Case::new(g.clone(), 0, R | P);
                c.rule_ty = vec![Some(T::Inv); g.rules.len()];
                if i >= hidden_from { c.mask = 0; }
                run.push(c);
            }
            _ => (),
        }
    }
    ctx.add(n.states, n.trans, v.len() as u64);
    ctx.note("verdicts", J::Num(v.len() as f64));
    ctx.note("rejected", J::Num(j.iter().filter(|x| !x.v.accepted()).count() as f64));
    run_cases(ctx, &run, &[words(&["a", "b"], 4)], Opts::default());
}

pub fn uses_act(g: &Gram) -> bool {
    fn f(e: &E) -> bool { matches!(e, E::Act(..)) || e.children().into_iter().any(f) }
    g.rules.iter().any(|r| f(&r.e))
}

pub fn kind_of(msg: &str) -> Option<WErr> {
    if msg.contains("will never succeed") { Some(WErr::Never) }
    else if msg.contains("always succeed without consuming") { Some(WErr::Always) }
    else if msg.contains("Infinite loop") { Some(WErr::Loop) }
    else if msg.contains("Unreachable branch") { Some(WErr::Unreachable) }
    else if msg.contains("Left-recursion") { Some(WErr::LeftRec) }
    else { None }
}

/// The errors point at an expression which has the defect, and the cycle shown is one.
pub fn misplaced(g: &Gram, errs: &[String], spans: &[Option<(usize, usize)>]) -> Option<String> {
    let a = G::new(g);
    let w = judge_wf(&a);
    let text = g.render();
    let names = g.names();
    // where the rules and the expressions are
    let (mut rules, mut places, mut o, mut n) = (vec![], vec![], 0, 0);
    for r in &g.rules {
        let own = G::new(&Gram { rules: vec![r.clone()], ..Default::default() }).nodes.len();
        if r.external { rules.push((0, 0)); for _ in 0..own { places.push((0, 0)); } n += own; continue; }
        if o > 0 { o += 1; }
        let start = o;
        o += r.name.len() + r.asc.as_ref().map_or(0, |t| t.len() + 1) + 3;
        let body = r.e.render(&names, g.full_parens);
        for (lo, hi, _) in r.e.places(&names, g.full_parens) { places.push((o + lo, o + hi)); }
        if r.asc.is_some() { places.push((o, o + body.len())); }
        n += own;
        o += body.len();
        rules.push((start, o));
    }
    if places.len() != n || r_types(g) { return None; }
    for (m, s) in errs.iter().zip(spans) {
        let k = match kind_of(m) { Some(k) => k, None => continue };
        let (lo, hi) = match s { Some(x) => *x, None => return Some(format!("the error is not located: {}", m)) };
        if k == WErr::LeftRec {
            if !w.at.iter().any(|(x, r)| *x == k && rules[*r].0 <= lo && hi <= rules[*r].1) { return Some(format!("a left-recursion is reported at {:?}, where no rule is left-recursive", text.get(lo..hi))); }
            let cycle: Vec<&str> = m.split("Detected cycle: ").nth(1).and_then(|c| c.lines().next()).map_or(vec![], |c| c.split(" -> ").collect());
            for x in cycle.windows(2) {
                let ix = |s: &str| names.iter().position(|n| n == s.trim());
                match (ix(x[0]), ix(x[1])) { (Some(p), Some(q)) if w.left.contains(&(p, q)) => (), _ => return Some(format!("the cycle shown is not one: {} does not call {} at the same position", x[0], x[1])) }
            }
            if cycle.len() < 2 || cycle[0].trim() != cycle[cycle.len() - 1].trim() { return Some(format!("no cycle is shown: {}", m)); }
        } else {
            // around the parentheses
            let wide = |(mut a, mut b): (usize, usize)| { let t = text.as_bytes(); while a > 0 && b < t.len() && t[a - 1] == b'(' && t[b] == b')' { a -= 1; b += 1; } (a, b) };
            let ok = w.at.iter().filter(|(x, _)| *x == k).any(|(_, n)| { let (a, b) = wide(places[*n]); a <= lo && hi <= b });
            if !ok { return Some(format!("{:?} is reported at {:?}, which is not an expression having this defect", k, text.get(lo..hi))); }
        }
    }
    None
}
fn r_types(g: &Gram) -> bool { g.rules.iter().any(|r| uses_asc(&r.e)) || !g.render().is_ascii() }

fn c07(ctx: &Ctx) {
    ctx.assume("the over-approximation of the behaviours is the one of Ford, with the empty literal allowed to consume, as documented in the code");
    let t = ctx.thorough;
    let mut v = wf_exprs(if t { 6 } else { 5 });
    v.extend(wf_rec(false));
    v.extend(rounds(t));
    v.extend(prefixed_recursion(if t { 4 } else { 3 }));
    v.extend(chains(t));
    v.extend(webs(t));
    let v = dedup(v);
    let ts = texts(&v);
    let j = verdicts(ctx, &ts);
    let ins = words(&["a", "b"], 4);
    let mut kinds: std::collections::BTreeMap<String, u64> = Default::default();
    let mut n = Count::default();
    for (i, g) in v.iter().enumerate() {
        let m = wf_of(g);
        for k in &m { *kinds.entry(format!("{:?}", k)).or_default() += 1; }
        n.states += G::new(g).nodes.len() as u64;
        n.trans += g.rules.len() as u64;
        match &j[i].v {
            Verdict::Accepted => if !m.is_empty() { ctx.violation(&ts[i], format!("accepted but ill-formed: {:?}", m), ts[i].clone()) },
            Verdict::Rejected(e) => {
                if m.is_empty() { ctx.violation(&ts[i], format!("well-formed but rejected: {}", e.join(" | ")), ts[i].clone()); continue; }
                let mut any = false;
                for x in e { if let Some(k) = kind_of(x) { any = true; if !m.contains(&k) { ctx.violation(&ts[i], format!("reported as {:?} but its defects are {:?}", k, m), ts[i].clone()); } } }
                if let Some(w) = misplaced(g, e, &j[i].espans) { ctx.violation(&ts[i], w, ts[i].clone()); }
                if !any { ctx.violation(&ts[i], format!("rejected without a well-formedness error: {}", e.join(" | ")), ts[i].clone()); }
                // an expression reported as never succeeding matches nothing: the whole rule if it is the expression reported
                if g.rules.len() == 1 && !uses(&g.rules[0].e, 0) {
                    let a = G::new(g);
                    if m.len() == 1 && m.contains(&WErr::Never) && j[i].whole(&ts[i]) {
                        for s in &ins { if let Ok(o) = observe(&a, 0, s, &mut n) { if o.rok { ctx.violation(&ts[i], format!("reported as never succeeding but matches {:?}", s), ts[i].clone()); break; } } }
                    }
                }
            }
            Verdict::Crash(s) => ctx.violation(&ts[i], format!("the compiler does not answer: {}", s), ts[i].clone()),
        }
    }
    ctx.add(n.states, n.trans, v.len() as u64);
    ctx.grammars.fetch_add(v.len() as u64, std::sync::atomic::Ordering::Relaxed);
    for (k, x) in kinds { ctx.note(&format!("ill_formed_{}", k), J::Num(x as f64)); }
    for i in (0..v.len()).step_by(v.len() / 6 + 1) { ctx.sample(format!("{} : {}", ts[i], j[i].v.text())); }
}

// ---------------------------------------------------------------------------------------------
// Runtime

const RUNTIME: &str = "the probe enumerates and compares by itself, on the runtime library built from /repo";

fn c09(ctx: &Ctx) {
    ctx.assume(RUNTIME);
    ctx.assume("the column is a number of bytes, as in the code and its tests; the order of the expected items is free");
    run_probe(ctx, "c09", include_str!("../../probes/c09.rs"), 8);
}

fn c13(ctx: &Ctx) { ctx.assume(RUNTIME); run_probe(ctx, "c13", include_str!("../../probes/c13.rs"), 8); }

fn c14(ctx: &Ctx) {
    ctx.assume(RUNTIME);
    ctx.assume("signalling an error on a state which holds data is outside of the contract");
    run_probe(ctx, "c14", include_str!("../../probes/c14.rs"), 10);
}

fn c16(ctx: &Ctx) {
    ctx.assume(RUNTIME);
    run_probe(ctx, "c16", include_str!("../../probes/c16.rs"), 8);
    // parsers on file maps
    let t = ctx.thorough;
    let mut base = result_families(t, ALL);
    base.extend(cases(fam_wrap(&small_exprs(3), if t { 3 } else { 2 }, W_SPANS), 0, ALL));
    let mut v = dedup_cases(base);
    for c in v.iter_mut() { *c = on_stream(c.clone(), "pub type Stream<'a> = oak_runtime::file_map_stream::FileMapStream<'a>;", "Range<Stream<'a>>", "", "unreachable!()"); }
    for c in v.iter_mut() { c.go = Some("pub fn go(i: &str) -> String { let i: &'static str = unsafe { std::mem::transmute(i) }; obs_file(i, recognize_r, parse_r) }".into()); }
    let f = |c: &Case, g: &G, input: &str, col: &[&str], n: &mut Count| -> Option<String> {
        if col.len() != 12 { return Some(format!("{:?}", col)); }
        let d = against_model(c, g, input, &col[..11], n);
        if d.is_some() { return d; }
        let o = observe(g, c.rule, input, n).ok()?;
        let ok = if o.pok && o.pend == input.len() { col[11] == "S" } else { col[11].starts_with(if o.pok { 'P' } else { 'F' }) && same_message(&col[11][1..], input, o.pfar, &o.pexp) };
        if ok { None } else { Some(format!("the result is rendered {} but the farthest failure is at {} expecting {:?}", col[11], o.pfar, o.pexp)) }
    };
    let mut ins = std_inputs(if t { 5 } else { 4 });
    ins.extend(words(&["a", "\n"], 3).into_iter().filter(|w| w.contains('\n')));
    run_cases(ctx, &v, &[ins], Opts { cmp: Some(&f), extra: include_str!("../../probes/streams.rs"), ..Opts::default() });
}

pub fn result_families(t: bool, mask: u16) -> Vec<Case> {
    let mut v = cases(fam_core(if t { 5 } else { 4 }), 0, mask);
    v.extend(cases(value_exprs(if t { 5 } else { 4 }).into_iter().map(gram1).collect(), 0, mask));
    v.extend(cases(fam_two(if t { 4 } else { 3 }), 0, mask));
    v.extend(cases(fam_two_typed(if t { 3 } else { 2 }), 0, mask));
    v.extend(cases(fam_typed(if t { 4 } else { 3 }), 0, mask));
    v.extend(cases_inv(fam_rec(if t { 5 } else { 4 }), 0, mask));
    v.extend(recursive_values(0, mask));
    dedup_cases(v)
}

pub fn line_col(t: &str, pos: usize) -> String {
    let (mut l, mut c) = (1, 1);
    for b in t[..pos].bytes() { if b == b'\n' { l += 1; c = 1 } else { c += 1 } }
    format!("{}:{}", l, c)
}
pub fn snippet(t: &str, pos: usize) -> String {
    if pos == t.len() { return "<end-of-file>".into() }
    let mut s = String::new();
    for c in t[pos..].chars() { if s.len() + c.len_utf8() > 10 { break } s.push(c) }
    s
}
/// Is it the documented rendering of this failure?
pub fn same_message(text: &str, input: &str, far: usize, exp: &std::collections::BTreeSet<String>) -> bool {
    let head = esc(&format!("{}: unexpected `{}`, expecting ", line_col(input, far), snippet(input, far)));
    let r = match text.strip_prefix(&head[..]).and_then(|r| r.strip_suffix('.')) { Some(r) => r, None => return false };
    let mut want: Vec<String> = exp.iter().map(|x| format!("`{}`", esc(x))).collect();
    want.sort();
    let mut got: Vec<String> = if r.is_empty() { vec![] } else { r.split(" or ").map(|x| x.to_string()).collect() };
    got.sort();
    got == want
}

fn c15(ctx: &Ctx) {
    ctx.assume(SEM);
    let t = ctx.thorough;
    let mut v = result_families(t, 0);
    v.extend(cases(fam_core(if t { 6 } else { 5 }), 0, 0));
    v.extend(cases(fam_two(if t { 5 } else { 4 }), 0, 0));
    v.extend(cases(fam_wrap(&small_exprs(3), 2, W_ALL), 0, 0));
    v.extend(cases(fam_lits(4), 0, 0));
    let mut v = dedup_cases(v);
    let mut sets = vec![{
        let mut ins = std_inputs(4);
        ins.extend(words(&["a", "\n"], 3).into_iter().filter(|w| w.contains('\n')));
        for x in ["a\t", "\ta", "a\0", "\0a", "a ", " a", "a\r\n", "a\u{2028}", "\u{feff}a", "a\u{301}", "a\"", "a`", "a\\"] { ins.push(x.into()); }
        ins.extend((8..13).flat_map(|n| ["b", "é", "€", "𝄞"].map(|x| format!("a{}{}", "b".repeat(n - 4), x.repeat(4)))));
        ins
    }];
    add_many_expected(&mut v, &mut sets, if t { &[1, 2, 3, 5, 8, 9, 16, 17, 33, 65] } else { &[2, 5, 9, 17, 33] }, 0);
    for c in v.iter_mut() { c.go = Some("pub fn go(i: &str) -> String { results(i, recognize_r, parse_r) }".into()); }
    let f = |c: &Case, g: &G, input: &str, col: &[&str], n: &mut Count| -> Option<String> {
        if col.len() != 7 { return Some(format!("{:?}", col)); }
        let o = match observe(g, c.rule, input, n) { Ok(o) => o, Err(_) => return Some("the reference semantics diverges but the grammar is accepted".into()) };
        let kind = |ok: bool, end: usize| if !ok { "F" } else if end == input.len() { "S" } else { "P" };
        for (who, ok, end, far, exp, k, val) in [("recognizer", o.rok, o.rend, o.rfar, &o.rexp, 0, "()"), ("parser", o.pok, o.pend, o.pfar, &o.pexp, 3, &o.val[..])] {
            let w = kind(ok, end);
            if col[k] != w { return Some(format!("into_result of the {} is {} but must be {} (Success, Partial or Failure)", who, col[k], w)); }
            if ok && col[k + 1] != val { return Some(format!("into_result of the {} holds {} but must hold {}", who, col[k + 1], val)); }
            if w != "S" && !same_message(col[k + 2], input, far, exp) { return Some(format!("into_result of the {} reports {} but the farthest failure is at {} expecting {:?}", who, col[k + 2], far, exp)); }
        }
        if o.pok && col[6] != o.val { return Some(format!("unwrap_data yields {} but must yield {}", col[6], o.val)); }
        None
    };
    run_cases(ctx, &v, &sets, Opts { cmp: Some(&f), ..Opts::default() });
}

fn c28(ctx: &Ctx) {
    ctx.assume("the oracle is the generated code itself, run on the remaining text alone from a fresh state");
    let t = ctx.thorough;
    let mut v = result_families(t, 0);
    v.extend(cases(fam_wrap(&small_exprs(3), 2, W_ALL), 0, 0));
    v.extend(cases(fam_lits(3), 0, 0));
    if t { v.extend(cases(fam_deep(false), 0, 0)); }
    let mut v = dedup_cases(v);
    for c in v.iter_mut() { c.go = Some("pub fn go(i: &str) -> String { indep(i, recognize_r, parse_r) }".into()); }
    let f = |_: &Case, _: &G, _: &str, col: &[&str], n: &mut Count| -> Option<String> {
        if col.len() != 2 { return Some(format!("{:?}", col)); }
        if col[0] == "diff" { return Some(col[1].to_string()); }
        let k: u64 = col[1].parse().unwrap_or(0);
        n.states += k;
        n.trans += k;
        None
    };
    let mut ins = std_inputs(if t { 6 } else { 4 });
    ins.extend(words(&["a", "b", "\n"], 3).into_iter().filter(|w| w.contains('\n')));
    run_cases(ctx, &v, &[ins], Opts { cmp: Some(&f), ..Opts::default() });
}

/// Inside a grammar over another stream.
pub fn on_stream(mut c: Case, item: &str, range: &str, span: &str, go: &str) -> Case {
    c.g.items.push(item.into());
    c.subst.push(("Range<StrStream<'a>>".into(), range.into()));
    if !span.is_empty() { c.subst.push((": Span".into(), format!(": {}", span))); }
    c.go = Some(format!("pub fn go(i: &str) -> String {{ {} }}", go));
    c
}

/// Observation of 11 columns, and the offsets where the stream was read.
fn cmp_touch(c: &Case, g: &G, input: &str, col: &[&str], n: &mut Count) -> Option<String> {
    if col.len() != 12 { return Some(format!("{:?}", col)); }
    let d = against_model(c, g, input, &col[..11], n);
    if d.is_some() { return d; }
    let mut e = Ev::new(g, input);
    let _ = e.run_rule(c.rule, 0, false);
    let _ = e.run_rule(c.rule, 0, true);
    let ok: std::collections::BTreeSet<usize> = e.seen.iter().filter(|(n, _)| matches!(g.nodes[*n].k, K::Lit(..) | K::Cls(..) | K::Any)).map(|(_, p)| e.off[*p]).collect();
    for t in col[11].split(',').filter(|x| !x.is_empty()) { if !ok.contains(&t.parse().unwrap()) { return Some(format!("the stream is read at byte {} where no terminal is tried", t)); } }
    None
}

fn c24(ctx: &Ctx) {
    ctx.assume(SEM);
    let t = ctx.thorough;
    let mut base = result_families(t, ALL);
    base.extend(cases(fam_wrap(&small_exprs(3), if t { 2 } else { 1 }, W_SPANS), 0, ALL));
    base.extend(cases(fam_lits(3), 0, ALL));
    let base = dedup_cases(base);
    let mut v = vec![];
    // no user can implement StreamSpan for the range of a stream outside of the runtime crate, hence no span
    for (i, c) in base.iter().cloned().filter(|c| !has(c, |e| matches!(e, E::Spn(_)))).enumerate() {
        let ranges = has(&c, |e| matches!(e, E::Rng(_))) && has(&c, |e| matches!(e, E::Act(..)));
        v.push(on_stream(c.clone(), "pub type Stream<'a> = CharStream<'a>;", "Range<Stream<'a>>", "", "obs_chars(i, recognize_r, parse_r)"));
        if t || i % 2 == 0 { v.push(on_stream(c.clone(), "pub type Stream = RcStream;", "Range<Stream>", "", "obs_rc(i, recognize_r, parse_r)")); }
        if !ranges && (t || i % 2 == 1) { v.push(on_stream(c.clone(), "pub type Stream<'a, T: Source, U: Clone> = GenStream<'a, T, U>;", "", "", "obs_gen(i, recognize_r, parse_r)")); }
        if !ranges && i % 3 == 0 { v.push(on_stream(c.clone(), "pub type Stream<'a, T, U> where T: Source, U: Clone = GenStream<'a, T, U>;", "", "", "obs_gen(i, recognize_r, parse_r)")); }
        // every way to state the parameters of the alias
        let shapes: &[(&str, &str, &str)] = &[
            ("pub type Stream<'a, const N: usize> = NumStream<'a, N>;", "", "obs_num"), ("pub type Stream<'a> = NumStream<'a, 3>;", "Range<Stream<'a>>", "obs_num"), ("pub type Stream<'s> = CharStream<'s>;", "", "obs_chars"), ("type Stream<'a> = CharStream<'a>;", "Range<Stream<'a>>", "obs_chars"),
            ("pub type Stream<'a, 'b> = TwoStream<'a, 'b>;", "", "obs_two"), ("pub type Stream<'b, 'a> = TwoStream<'a, 'b>;", "", "obs_two"), ("pub type Stream<'a, 'b: 'a> = TwoStream<'a, 'b>;", "", "obs_two"), ("pub type Stream<'a, 'b> where 'b: 'a = TwoStream<'a, 'b>;", "", "obs_two"), ("pub type Stream<'a> = TwoStream<'a, 'static>;", "Range<Stream<'a>>", "obs_two"), ("pub type Stream = TwoStream<'static, 'static>;", "Range<Stream>", "obs_two"),
            ("pub type Stream<T: Source> = OwnStream<T>;", "", "obs_own"), ("pub type Stream<T> where T: Source = OwnStream<T>;", "", "obs_own"), ("pub type Stream = OwnStream<Text>;", "Range<Stream>", "obs_own"), ("pub type Stream<T: Source + 'static> = OwnStream<T>;", "", "obs_own"), ("pub type Stream<S: self::Source> = OwnStream<S>;", "", "obs_own"),
            ("pub type Stream<'a, T: Source, const N: usize> = MixStream<'a, T, N>;", "", "obs_mix"), ("pub type Stream<'a, const N: usize, T: Source> = MixStream<'a, T, N>;", "", "obs_mix"), ("pub type Stream<const N: usize> = MixStream<'static, Text, N>;", "", "obs_mix"), ("pub type Stream<'a, T> where T: Source + 'a = MixStream<'a, T, 7>;", "", "obs_mix"),
            ("pub type Stream<'a, U: Clone, T: Source> = GenStream<'a, T, U>;", "", "obs_gen"), ("pub type Stream<'a, U> where U: Clone = GenStream<'a, Text, U>;", "", "obs_gen"), ("pub type Stream<'a> = super::rt::GenStream<'a, super::rt::Text, u8>;", "Range<Stream<'a>>", "obs_gen"), ("#[allow(dead_code)] pub type Stream<'a, T: Source> = GenStream<'a, T, <u8 as ToOwned>::Owned>;", "", "obs_gen"), ("pub type Stream<'a, T, U> where U: Clone, T: Source, for<'x> &'x T: Sized = GenStream<'a, T, U>;", "", "obs_gen"),
            // other names around
            ("pub type ByteStream<'a> = Vec<&'a u8>; pub type Stream<'a> = CharStream<'a>; type StreamX = u8; type Streams<T> = Vec<T>;", "Range<Stream<'a>>", "obs_chars"), ("mod other { pub type Stream = u8; } struct Streams; pub type Stream<'a, T: Source, const N: usize> = MixStream<'a, T, N>; type StreamSpan = u8;", "", "obs_mix"), ("type OwnStreams = u8; type stream = u16; pub type Stream<T: Source> = OwnStream<T>;", "", "obs_own"), ("trait Tr { type Stream; } struct St; impl Tr for St { type Stream = u8; } pub type Stream<'a> = CharStream<'a>;", "Range<Stream<'a>>", "obs_chars"),
        ];
        let (item, range, go) = shapes[i % shapes.len()];
        if !(range.is_empty() && ranges) { v.push(on_stream(c.clone(), item, range, "", &format!("{}(i, recognize_r, parse_r)", go))); }
        if t || i % 3 == 1 { v.push(on_stream(c.clone(), "pub type Stream<'a> = BareStream<'a>;", "Range<Stream<'a>>", "", "obs_bare(i, recognize_r, parse_r)")); }
    }
    // without an alias named `Stream`, the stream is the one of the strings
    let others = ["pub type ByteStream = Vec<u8>;", "pub type StreamX<'a> = &'a [u8];", "type Streams<T> = Vec<T>;", "type stream = u8;", "mod other { pub type Stream = Vec<u8>; }", "trait Tr { type Stream; } struct St; impl Tr for St { type Stream = u8; }", "type MyStream<'a, T> = CharStream<'a>; type TStream = u8;", "struct MStream; pub type STREAM = u8; type Strea = u8; type StrStreams = u8;"];
    let own: Vec<Case> = base.iter().step_by(if t { 1 } else { 7 }).enumerate().map(|(i, c)| { let mut c = c.clone(); c.g.items.push(others[i % others.len()].replace("CharStream<'a>", "(&'a T, ())")); c }).collect();
    run_cases(ctx, &own, &[std_inputs(4)], Opts::default());
    run_cases(ctx, &v, &[std_inputs(if t { 5 } else { 4 })], Opts { cmp: Some(&cmp_touch), extra: include_str!("../../probes/streams.rs"), ..Opts::default() });
}

pub fn has(c: &Case, f: fn(&E) -> bool) -> bool {
    fn go(e: &E, f: fn(&E) -> bool) -> bool { f(e) || e.children().into_iter().any(|c| go(c, f)) }
    c.g.rules.iter().any(|r| go(&r.e, f))
}
