//! Checks which relate several forms of a grammar: syntax, rewritings, permutations, external rules, types, recursion, size.
use crate::checks::*;
use crate::checks2::*;
use crate::gens::*;
use crate::infra::*;
use crate::json::J;
use crate::model::*;
use crate::probe::*;
use crate::syntax::*;
use crate::typing::infer;
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// The case with the types of its rules inferred, recursion included; None if it is ill-formed or ill-typed.
pub fn inferred(mut c: Case) -> Option<Case> {
    let (mut g, _) = c.arena();
    let v = infer(&mut g);
    if !v.ok() || v.gray || well_formed(&g).is_err() { return None; }
    // what has no type is only accepted under unit contexts: the values are not compared by Rust there
    c.rule_ty = g.rule_ty.clone();
    Some(c)
}

/// Texts which are layouts of the same tokens.
pub const LAYOUTS: &[&str] = &[" ", "\n", " /*c*/", " // c\n", "", "\t\r\n  ", " /* / \" */ "];

pub fn lay(text: &str, sep: &str) -> String {
    let t = tokens(text);
    layout(&t, sep)
}

fn with_decls(c: &mut Case, text: String) {
    let g = c.arena().0;
    let mut s = text;
    for (_, d, known) in g.action_decls() { if known { s.push('\n'); s.push_str(&d); } }
    c.text = Some(s);
}

/// The cases rendered with the parentheses and the layout given.
pub fn relaid(v: Vec<Case>, full: bool, sep: &str) -> Vec<Case> {
    v.into_iter().map(|mut c| { c.g.full_parens = full; let t = lay(&c.g.render(), sep); with_decls(&mut c, t); c }).collect()
}

fn rename_actions(g: &mut Gram) {
    fn go(e: &E, k: &mut usize) -> E {
        match e {
            E::Act(c, a) => { let c = go(c, k); let n = *k; *k += 1; E::Act(Box::new(c), Action { name: format!("act{}", n), ..a.clone() }) }
            e => e.map_children(&mut |x| go(x, k)),
        }
    }
    let mut k = 0;
    for r in g.rules.iter_mut() { r.e = go(&r.e, &mut k); }
}

pub fn only_local(g: &Gram) -> bool {
    fn f(e: &E) -> bool { match e { E::Ext(..) => false, E::Act(c, a) => a.known && f(c), E::Asc(c, t) => t != "V" && f(c), e => e.children().into_iter().all(f) } }
    g.rules.iter().filter(|r| !r.external).all(|r| f(&r.e))
}

/// The accepted texts, compiled as they are written and compared with the tree of the reference parser.
fn text_cases(texts: &[Vec<Tok>], ok: Vec<(usize, Gram)>, rules: usize) -> Vec<Case> {
    let mut v = vec![];
    for (n, (i, mut g)) in ok.into_iter().enumerate() {
        if !only_local(&g) { continue; }
        g.rules.retain(|r| !r.external);
        rename_actions(&mut g);
        let mut k = 0;
        let t: Vec<String> = texts[i].iter().enumerate().map(|(j, x)| if *x == "f" && j > 0 && (texts[i][j - 1] == ">" || texts[i][j - 1] == "box") { k += 1; format!("act{}", k - 1) } else { x.to_string() }).collect();
        let sep = LAYOUTS[n % 5];
        let text = lay(&t.join(" "), sep);
        for r in 0..g.rules.len().min(rules) {
            let c = Case::new(g.clone(), 0, ALL);
            let mut c = match inferred(c) { Some(c) => c, None => continue };
            let r = if rules == 1 { g.rules.iter().position(|x| x.name == "r").unwrap() } else { r };
            c.rule = r;
            with_decls(&mut c, text.clone());
            v.push(c);
        }
    }
    v
}

/// The branches of a choice may have different Rust types Oak does not compare.
pub fn rust_ok(v: Vec<Case>) -> Vec<Case> {
    v.into_iter().filter(|c| { let (g, _) = c.arena(); g.nodes.iter().all(|n| !matches!(n.ty, Some(Err(_)))) && g.rust_choices() }).collect()
}

pub fn c19(ctx: &Ctx) {
    ctx.assume(SEM);
    ctx.assume("the reference parser of the grammar language is mc/src/syntax.rs");
    let t = ctx.thorough;
    let ins = std_inputs(4);
    // 1. trees, printed in every way
    let mut trees = cases(fam_typed(if t { 5 } else { 4 }), 0, ALL);
    trees.extend(cases(fam_core(4), 0, ALL));
    trees.extend(cases(fam_two(3), 0, ALL));
    trees.extend(cases(fam_wrap(&small_exprs(3), 2, W_ALL), 0, ALL));
    let trees = dedup_cases(trees);
    let mut v = vec![];
    for (i, c) in trees.into_iter().enumerate() {
        let forms = [(true, " "), (false, ""), (true, "\n"), (false, " // c\n"), (false, "\n"), (true, " /*c*/"), (false, " /*c*/"), (true, ""), (false, "\t\r\n  "), (true, " /* / \" */ ")];
        for (k, (full, sep)) in forms.iter().enumerate() { if t && k < 4 || i % forms.len() == k || (i + 5) % forms.len() == k { v.extend(relaid(vec![c.clone()], *full, sep)); } }
    }
    run_cases(ctx, &v, &[ins.clone()], Opts::default());
    ctx.note("printed_trees", J::Num(v.len() as f64));
    // 2. every token string accepted, against the tree of the reference parser
    let texts: Vec<Vec<Tok>> = body_texts(t).into_iter().map(|b| { let mut v = vec!["s", "=", "[\"b\"]", "r", "="]; v.extend(b); v }).collect();
    let ok = judge_texts(ctx, &texts, FN_F);
    let v = rust_ok(text_cases(&texts, ok, 1));
    run_cases(ctx, &v, &[ins.clone()], Opts::default());
    ctx.note("accepted_bodies_run", J::Num(v.len() as f64));
    // 3. where rules end
    let mut whole: Vec<Vec<Tok>> = vec![];
    for n in 3..=(5 + t as usize) { for b in strings(&["r", "s", "=", "\"a\"", "?", ".", ":(^)"], n) { let mut v = vec!["r", "="]; v.extend(b); if v.iter().filter(|x| **x == "=").count() == 2 { whole.push(v); } } }
    for n in 5..=(6 + t as usize) { for b in strings(&["r", "s", "=", "\"a\"", "/"], n) { let mut v = vec!["r", "=", "\"b\""]; v.extend(b); if v.iter().filter(|x| **x == "=").count() == 3 { whole.push(v); } } }
    let ok = judge_texts(ctx, &whole, FN_F);
    let v = rust_ok(text_cases(&whole, ok, 2));
    run_cases(ctx, &v, &[ins], Opts::default());
    ctx.note("rule_boundaries_run", J::Num(v.len() as f64));
}

// ---------------------------------------------------------------------------------------------
// Chaining

const CHAINS: &[(char, char, char)] = &[('!', '!', '&'), ('&', '&', '&'), ('!', '&', '!'), ('&', '!', '!'), ('?', '?', '?'), ('?', '+', '*'), ('?', '*', '*'), ('+', '+', '+'), ('*', '+', '*'), ('*', '*', '*')];

fn op_of(e: &E) -> Option<(char, &E)> {
    Some(match e { E::Opt(c) => ('?', &**c), E::Star(c) => ('*', &**c), E::Plus(c) => ('+', &**c), E::Not(c) => ('!', &**c), E::And(c) => ('&', &**c), _ => return None })
}
fn mk(op: char, e: E) -> E { match op { '?' => opt(e), '*' => star(e), '+' => plus(e), '!' => not(e), _ => and(e) } }

/// The `e` of a pattern of which the inner operator is op, looked for under what does not change the match.
fn operand(g: &Gram, e: &E, op: char, fuel: usize) -> Option<E> {
    if fuel == 0 { return None; }
    match e {
        E::Nt(r) => operand(g, &g.rules[*r].e, op, fuel - 1),
        E::Cho(v) => v.iter().map(|c| operand(g, c, op, fuel - 1)).collect::<Option<Vec<E>>>().map(E::Cho),
        E::Act(c, _) | E::Asc(c, _) | E::Spn(c) | E::Rng(c) => operand(g, c, op, fuel - 1),
        e => match op_of(e) { Some((o, c)) if o == op => Some(c.clone()), _ => None },
    }
}

/// Is the operand in another rule?
fn crosses(g: &Gram, e: &E) -> bool {
    match e {
        E::Nt(_) => true,
        E::Cho(v) => v.iter().any(|c| crosses(g, c)),
        E::Act(c, _) | E::Asc(c, _) | E::Spn(c) | E::Rng(c) => crosses(g, c),
        _ => false,
    }
}

use crate::checks4::act_ext;

fn pattern(op: char, inner: &str) -> String { if op == '!' || op == '&' { format!("{}{}", op, inner) } else { format!("{}{}", inner, op) } }

pub fn c21(ctx: &Ctx) {
    ctx.assume(SEM);
    ctx.assume("a chain is pointed at by the start of its outer expression; nothing is required inside of a chain already reported; equivalence is that of the matches, on all inputs of {a,b}* up to 4");
    let t = ctx.thorough;
    let mut v: Vec<Gram> = Space { prune: false, ..Space::with(vec![lit("a"), asc(E::Any, "(^)")]) }.upto(5 + t as usize).into_iter().filter(canon_ab).map(gram1).collect();
    let subs: Vec<E> = Space { prune: true, seq: 2, cho: 2, ..Space::with(vec![lit("a"), lit("b")]) }.upto(3).into_iter().filter(canon_ab).collect();
    for b in (Space { prune: false, seq: 2, cho: 2, ..Space::with(vec![E::Nt(1), lit("b")]) }).upto(3 + t as usize) { if uses(&b, 1) { for s in &subs { v.push(gram(vec![("r", b.clone()), ("s", s.clone())])); } } }
    // through two rules, choices, actions, ascriptions and spans
    let ops = ['?', '*', '+', '!', '&'];
    let under: Vec<fn(E) -> E> = vec![|e| e, |e| E::Nt(match e { E::Nt(n) => n, _ => 1 }), |e| cho(vec![e, lit("b")]), |e| seq(vec![e, lit("b")]), |e| seq(vec![lit("b"), e]), |e| asc(e, "()"), |e| asc(e, "(^)"), |e| act(e, "?"), spn, rng];
    for o in ops { for i in ops { for (k, u) in under.iter().enumerate() { for w in &under {
        if k == 1 { continue; }
        for e in [lit("a"), cls("a"), seq(vec![lit("a"), lit("b")]), cho(vec![lit("a"), seq(vec![lit("b"), lit("a")])])] {
            let mut gs = vec![gram1(mk(o, u(w(mk(i, e.clone()))))), gram(vec![("r", mk(o, u(w(E::Nt(1))))), ("s", mk(i, e.clone()))]), gram(vec![("r", mk(o, w(E::Nt(1)))), ("s", u(E::Nt(2))), ("t", mk(i, e.clone()))])];
            if k == 0 { for j in ops { gs.push(gram1(seq(vec![lit("b"), mk(o, cho(vec![mk(i, e.clone()), mk(j, lit("b"))]))]))); gs.push(gram1(mk(o, w(mk(i, mk(j, e.clone())))))); gs.push(gram(vec![("r", mk(o, cho(vec![w(E::Nt(1)), mk(j, lit("b"))]))), ("s", mk(i, e.clone()))])); } }
            for mut g in gs { number_actions(&mut g); if g.rules.iter().all(|r| !matches!(r.e, E::Nt(n) if n == 0)) { v.push(g); } }
        }
    } } } }
    v.extend(wf_rec(false).into_iter().step_by(if t { 1 } else { 5 }));
    v.retain(|g| g.rules.iter().all(|r| { fn ok(e: &E, n: usize) -> bool { match e { E::Nt(k) => *k < n, e => e.children().into_iter().all(|c| ok(c, n)) } } ok(&r.e, g.rules.len()) }));
    let v = dedup(v);
    let ts = texts(&v);
    let j = verdicts(ctx, &ts);
    let ins = words(&["a", "b"], 4);
    let mut n = Count::default();
    let (mut warned, mut chains) = (0u64, 0u64);
    let mut run = vec![];
    let mut memo: HashSet<(E, E, String)> = HashSet::new();
    for (i, g) in v.iter().enumerate() {
        let mut a = G::new(g);
        let ty = infer(&mut a);
        let good = well_formed(&a).is_ok() && ty.ok();
        n.states += a.nodes.len() as u64;
        n.trans += a.nodes.len() as u64;
        match &j[i].v {
            Verdict::Crash(s) => { ctx.violation(&ts[i], format!("Oak does not answer: {}", s), ts[i].clone()); continue }
            Verdict::Accepted => if !good && !ty.gray { ctx.violation(&ts[i], format!("accepted, but it must be rejected ({:?} {:?})", well_formed(&a), ty.errs), ts[i].clone()); continue },
            Verdict::Rejected(e) => { if good && !ty.gray { ctx.violation(&ts[i], format!("rejected, but it is valid: {}", e.join(" | ")), ts[i].clone()); } continue }
        }
        if !good { continue; }
        // places of the expressions
        let names = g.names();
        let mut at = 0;
        let mut places: Vec<(usize, &E)> = vec![];
        let mut parents: Vec<(usize, usize)> = vec![];
        for r in &g.rules {
            at += r.name.len() + 3;
            for (lo, hi, e) in r.e.places(&names, false) { places.push((at + lo, e)); parents.push((at + lo, at + hi)); }
            at += r.e.render(&names, false).len() + 1;
        }
        let mut hit: BTreeSet<usize> = BTreeSet::new();
        for (w, sp) in j[i].warn.iter().zip(&j[i].wspans) {
            if !w.contains("chaining") { continue; }
            warned += 1;
            let form = w.split('`').nth(1).unwrap_or("").to_string();
            let c = match CHAINS.iter().find(|(o, i, _)| pattern(*o, &format!("({})", pattern(*i, "e"))) == form) { Some(c) => *c, None => { ctx.violation(&ts[i], format!("a warning about an unknown form: {}", w), ts[i].clone()); continue } };
            let q = pattern(c.2, "e");
            if !w.contains(&format!("`{}`.", q)) { ctx.violation(&ts[i], format!("for {} the documented rewriting is {}, but: {}", form, q, w), ts[i].clone()); }
            let lo = sp.map(|x| x.0).unwrap_or(usize::MAX);
            let k = match (0..places.len()).find(|k| places[*k].0 == lo && op_of(places[*k].1).map(|x| x.0) == Some(c.0)) { Some(k) => k, None => { ctx.violation(&ts[i], format!("the warning points at no expression of the form {} (at {:?})", form, sp.and_then(|(a, b)| ts[i].get(a..b))), ts[i].clone()); continue } };
            if !hit.insert(k) { ctx.violation(&ts[i], "the same chain is reported twice".into(), ts[i].clone()); }
            let x = places[k].1;
            let e = match operand(g, op_of(x).unwrap().1, c.1, 10) { Some(e) => e, None => { ctx.violation(&ts[i], format!("{} is not of the form {}", x.render(&names, false), form), ts[i].clone()); continue } };
            // dropping the outer operator changes this rule only
            if c.2 != c.1 && crosses(g, op_of(x).unwrap().1) { ctx.violation(&ts[i], format!("the suggestion for {} asks to change another rule", x.render(&names, false)), ts[i].clone()); }
            let y = mk(c.2, e);
            let ctxt = if g.rules.len() > 1 { ts[i].clone() } else { String::new() };
            if !memo.insert((x.clone(), y.clone(), ctxt)) { continue; }
            let mut h = g.clone();
            h.rules.push(rule("x1", x.clone()));
            h.rules.push(rule("x2", y.clone()));
            let m = h.rules.len();
            let mut a = G::new(&h);
            a.rule_ty = vec![Some(T::Inv); m];
            for s in &ins {
                let o1 = observe(&a, m - 2, s, &mut n);
                let o2 = observe(&a, m - 1, s, &mut n);
                if let (Ok(o1), Ok(o2)) = (&o1, &o2) { if (o1.rok, o1.rend) == (o2.rok, o2.rend) { continue; } }
                ctx.violation(&ts[i], format!("the suggestion {} for {} is not equivalent to it on {:?}", y.render(&h.names(), false), x.render(&names, false), s), ts[i].clone());
                break;
            }
        }
        // direct chains
        for k in 0..places.len() {
            if let Some((o, c)) = op_of(places[k].1) { if let Some((i2, _)) = op_of(c) { if CHAINS.iter().any(|x| x.0 == o && x.1 == i2) {
                chains += 1;
                if !hit.iter().any(|h| *h == k || (parents[*h].0 <= parents[k].0 && parents[k].1 <= parents[*h].1)) { ctx.violation(&ts[i], format!("the chain {} is not reported", places[k].1.render(&names, false)), ts[i].clone()); }
            } } }
        }
        if !hit.is_empty() && (t || i % 4 == 0) && !uses_act(g) { let mut c = Case::new(g.clone(), 0, R | P); c.rule_ty = a.rule_ty.clone(); run.push(c); }
    }
    ctx.add(n.states, n.trans, v.len() as u64);
    ctx.grammars.fetch_add(v.len() as u64, std::sync::atomic::Ordering::Relaxed);
    ctx.note("chains_reported", J::Num(warned as f64));
    ctx.note("direct_chains", J::Num(chains as f64));
    ctx.note("suggestions_compared", J::Num(memo.len() as f64));
    for i in (0..v.len()).step_by(v.len() / 6 + 1) { ctx.sample(format!("{} : {} {}", ts[i], j[i].v.text(), j[i].warn.len())); }
    run_cases(ctx, &rust_ok(run), &[ins], Opts::default());
}

// ---------------------------------------------------------------------------------------------
// Recursion

/// Recursive rules with values.
pub fn rec_typed(t: bool) -> Vec<Gram> {
    let f_act: fn(E) -> E = |e| act(e, "?");
    let f_inv: fn(E) -> E = |e| asc(e, "(^)");
    let f_unit: fn(E) -> E = |e| asc(e, "()");
    let f_box: fn(E) -> E = |e| act_box(e, "?");
    let mut v: Vec<Gram> = vec![];
    let at = |n: usize| vec![E::Nt(n), lit("a"), cls("b")];
    let mut one = Space { un: "?*&", seq: 3, cho: 2, more: vec![f_act, f_inv], ..Space::with(at(0)) }.upto(5 + t as usize);
    one.extend(Space { un: "?+", seq: 2, cho: 2, more: vec![f_act, f_inv, f_unit, f_box, spn, rng], ..Space::with(at(0)) }.upto(5));
    v.extend(one.into_iter().filter(|e| uses(e, 0)).map(gram1));
    let two = |n: usize, k: usize| -> Vec<E> { Space { un: "?*", seq: 2, cho: 2, more: vec![f_act, f_inv], ..Space::with(at(n)) }.upto(k).into_iter().filter(|e| uses(e, n)).collect() };
    for a in two(1, 4) { for b in two(0, 3 + t as usize) { v.push(gram(vec![("r", a.clone()), ("s", b)])) } }
    // three rules in a cycle, and a rule outside of it
    let tm: Vec<fn(E) -> E> = vec![|e| seq(vec![cls("a"), opt(e)]), |e| seq(vec![lit("a"), opt(e)]), |e| cho(vec![cls("a"), seq(vec![lit("b"), e])]), |e| cho(vec![seq(vec![cls("a"), e]), lit("b")]), |e| act(seq(vec![cls("a"), opt(e)]), "?"), |e| asc(seq(vec![cls("a"), star(e)]), "(^)"), |e| cho(vec![lit("a"), seq(vec![lit("b"), e])]), |e| plus(seq(vec![lit("a"), e])), |e| seq(vec![lit("b"), e])];
    for a in &tm { for b in &tm { for c in &tm {
        v.push(gram(vec![("r", a(E::Nt(1))), ("s", b(E::Nt(2))), ("t", c(E::Nt(0)))]));
        v.push(gram(vec![("r", a(E::Nt(1))), ("s", b(E::Nt(2))), ("t", c(E::Nt(1)))]));
        v.push(gram(vec![("r", a(E::Nt(0))), ("s", b(cho(vec![E::Nt(0), E::Nt(2)]))), ("t", c(E::Nt(1)))]));
    } } }
    // the type of the rule is given
    for a in &tm { for b in &tm { for ty in ["(^)", "()", "V"] {
        let mut g = gram(vec![("r", a(E::Nt(1))), ("s", b(E::Nt(0)))]);
        g.rules[0].asc = Some(ty.into());
        v.push(g.clone());
        g.rules.swap(0, 1);
        v.push(g.renumber(&[1, 0]));
    } } }
    // components of which Oak does not know the type
    let f_ext: fn(E) -> E = |e| act_ext(e, "?");
    let ext_at = |n: usize| vec![E::Nt(n), lit("a"), cls("b"), act_ext(lit("a"), "?"), act(cls("a"), "?")];
    v.extend(Space { un: "?*", seq: 2, cho: 2, more: vec![f_ext, f_inv], ..Space::with(ext_at(0)) }.upto(4 + t as usize).into_iter().filter(|e| uses(e, 0)).map(gram1));
    let two = |n: usize, k: usize| -> Vec<E> { Space { un: "?", seq: 2, cho: 2, more: vec![f_ext], ..Space::with(ext_at(n)) }.upto(k).into_iter().filter(|e| uses(e, n)).collect() };
    for (i, a) in two(1, 3).iter().enumerate() { for (k, b) in two(0, 3).iter().enumerate() { if t || (i + k) % 2 == 0 { v.push(gram(vec![("r", a.clone()), ("s", b.clone())])) } } }
    let te: Vec<fn(E) -> E> = vec![|e| seq(vec![act_ext(cls("a"), "?"), e]), |e| cho(vec![lit("a"), seq(vec![lit("b"), e])]), |e| cho(vec![seq(vec![act_ext(cls("a"), "?"), e]), lit("b")]), |e| cho(vec![act_ext(cls("b"), "?"), seq(vec![lit("a"), e])]), |e| act_ext(seq(vec![cls("a"), opt(e)]), "?"), |e| asc(act_ext(seq(vec![cls("a"), opt(e)]), "?"), "V"), |e| seq(vec![lit("a"), opt(e)])];
    for a in &te { for b in &te {
        for c in &te { v.push(gram(vec![("r", a(E::Nt(1))), ("s", b(E::Nt(2))), ("t", c(E::Nt(0)))])); }
        v.push(gram(vec![("r", a(E::Nt(1))), ("s", b(E::Nt(0)))]));
        v.push(gram(vec![("r", act(cls("b"), "?")), ("s", a(E::Nt(2))), ("t", b(E::Nt(1)))]));
    } }
    // several cycles through the same rule
    let hub: Vec<fn(E) -> E> = vec![|e| seq(vec![lit("a"), e]), |e| seq(vec![cls("a"), e]), |e| seq(vec![lit("b"), opt(e)]), |e| act(seq(vec![cls("a"), opt(e)]), "?"), |e| seq(vec![lit("b"), E::Any, e]), |e| cho(vec![lit("a"), seq(vec![lit("b"), e])])];
    let mut k = 0usize;
    for a in &hub { for b in &hub { for c in &hub { for d in &hub {
        k += 1;
        if !t && k % 5 != 0 { continue; }
        let r = if k % 2 == 0 { cho(vec![seq(vec![lit("c"), a(E::Nt(1))]), seq(vec![lit("d"), b(E::Nt(2))]), lit("e")]) } else { seq(vec![opt(seq(vec![lit("c"), a(E::Nt(1))])), opt(b(E::Nt(2)))]) };
        let g = gram(vec![("r", r), ("s", seq(vec![lit("x"), opt(c(E::Nt(0)))])), ("t", seq(vec![lit("y"), opt(d(E::Nt(0)))]))]);
        v.push(if k % 3 == 0 { let mut g = g.renumber(&[2, 0, 1]); g.rules.rotate_left(1); g } else { g });
    } } } }
    for g in v.iter_mut() { number_actions(g); }
    dedup(v)
}

/// Rules called, directly or not, by each rule.
pub fn reach(g: &Gram) -> Vec<BTreeSet<usize>> {
    fn calls(e: &E, o: &mut BTreeSet<usize>) { if let E::Nt(n) = e { o.insert(*n); } for c in e.children() { calls(c, o); } }
    let mut r: Vec<BTreeSet<usize>> = g.rules.iter().map(|x| { let mut o = BTreeSet::new(); calls(&x.e, &mut o); o }).collect();
    for _ in 0..g.rules.len() { for i in 0..r.len() { let add: Vec<usize> = r[i].iter().flat_map(|k| r[*k].iter().cloned()).collect(); r[i].extend(add); } }
    r
}

/// The name a diagnostic of a rule points at.
fn pointed<'a>(text: &'a str, sp: &Option<(usize, usize)>) -> &'a str { sp.and_then(|(a, b)| text.get(a..b)).unwrap_or("") }

/// The expression calls the rule n.
fn calls(e: &E, n: usize) -> bool { *e == E::Nt(n) || e.children().into_iter().any(|c| calls(c, n)) }

/// What is wrong in the cycle of rules shown by a warning.
fn false_cycle(g: &Gram, m: &str) -> Option<String> {
    let cycle: Vec<&str> = m.split("`(^)`: ").nth(1).and_then(|c| c.lines().next()).map_or(vec![], |c| c.split(" -> ").map(|x| x.trim()).collect());
    if cycle.len() < 2 || cycle[0] != cycle[cycle.len() - 1] { return Some(format!("no cycle of rules is shown: {}", m)); }
    let ix = |s: &str| g.rules.iter().position(|r| r.name == s);
    for x in cycle.windows(2) {
        match (ix(x[0]), ix(x[1])) { (Some(p), Some(q)) if calls(&g.rules[p].e, q) => (), _ => return Some(format!("the cycle shown is not one, {} does not call {}: {}", x[0], x[1], m)) }
    }
    None
}

/// Compares the verdicts on grammars with the reference; the cases to run.
pub fn judge_grams(ctx: &Ctx, v: &[Gram], warnings: bool) -> Vec<Case> {
    let ts = texts_inferred(v);
    let j = verdicts(ctx, &ts);
    let mut run = vec![];
    let (mut st, mut poly, mut rej) = (0u64, 0u64, 0u64);
    for (i, g) in v.iter().enumerate() {
        let mut a = G::new(g);
        let ty = infer(&mut a);
        let wf = well_formed(&a);
        st += a.nodes.len() as u64;
        if let Verdict::Crash(s) = &j[i].v { ctx.violation(&ts[i], format!("Oak does not answer: {}", s), ts[i].clone()); continue }
        if wf.is_ok() && ty.gray { continue; }
        match &j[i].v {
            Verdict::Accepted => {
                if wf.is_err() || !ty.ok() { ctx.violation(&ts[i], format!("accepted, but it must be rejected ({:?} {:?})", wf, ty.errs), ts[i].clone()); continue }
                if warnings {
                    let w: BTreeSet<&str> = j[i].warn.iter().zip(&j[i].wspans).filter(|(w, _)| w.contains("infinite recursive type")).map(|(_, s)| pointed(&ts[i], s)).collect();
                    let re = reach(g);
                    for m in j[i].warn.iter().filter(|m| m.contains("infinite recursive type")) {
                        if let Some(x) = false_cycle(g, m) { ctx.violation(&ts[i], x, ts[i].clone()); }
                    }
                    let recs: Vec<&String> = j[i].warn.iter().filter(|m| m.contains("infinite recursive type")).collect();
                    for (k, m) in recs.iter().enumerate() { if recs[..k].contains(m) { ctx.violation(&ts[i], format!("the same cycle is reported twice: {}", m), ts[i].clone()); } }
                    for n in &w { if !ty.poly.iter().any(|p| g.rules[*p].name == *n) { ctx.violation(&ts[i], format!("a recursive type is reported on `{}` but its type is not recursive", n), ts[i].clone()); } }
                    for p in &ty.poly {
                        if !(0..g.rules.len()).any(|k| w.contains(&g.rules[k].name[..]) && (k == *p || re[k].contains(p) && re[*p].contains(&k))) { ctx.violation(&ts[i], format!("the type of `{}` is recursive, and no warning tells it", g.rules[*p].name), ts[i].clone()); }
                    }
                    // two rules which call each other are in a cycle shown
                    let cycles: Vec<Vec<&str>> = j[i].warn.iter().filter_map(|m| m.split("`(^)`: ").nth(1)).map(|c| c.lines().next().unwrap_or("").split(" -> ").map(|x| x.trim()).collect()).collect();
                    for a in &ty.poly { for b in &ty.poly { if a < b && calls(&g.rules[*a].e, *b) && calls(&g.rules[*b].e, *a) && !cycles.iter().any(|c| c.contains(&&g.rules[*a].name[..]) && c.contains(&&g.rules[*b].name[..])) {
                        ctx.violation(&ts[i], format!("`{}` and `{}` are recursive through each other, and no warning shows it", g.rules[*a].name, g.rules[*b].name), ts[i].clone());
                    } } }
                    poly += (!ty.poly.is_empty()) as u64;
                }
                let mut c = Case::new(g.clone(), 0, ALL);
                c.rule_ty = a.rule_ty.clone();
                run.push(c);
            }
            Verdict::Rejected(e) => {
                rej += 1;
                if wf.is_ok() && ty.ok() { ctx.violation(&ts[i], format!("rejected, but it is valid: {}", e.join(" | ")), ts[i].clone()); continue }
                if !j[i].located { ctx.violation(&ts[i], format!("no diagnostic points inside the grammar: {}", e.join(" | ")), ts[i].clone()); }
            }
            _ => (),
        }
    }
    ctx.add(st, st, v.len() as u64);
    ctx.note_add("verdicts", v.len() as u64);
    ctx.note_add("rejected", rej);
    if warnings { ctx.note_add("recursive_types", poly); }
    for i in (0..v.len()).step_by(v.len() / 5 + 1) { ctx.sample(format!("{} : {}", ts[i], j[i].v.text())); }
    run
}

pub fn texts_inferred(v: &[Gram]) -> Vec<String> {
    v.iter().map(|g| { let mut a = G::new(g); infer(&mut a); let mut s = g.render(); for (_, d, known) in a.action_decls() { if known { s.push(' '); s.push_str(&d); } } s }).collect()
}

pub fn c27(ctx: &Ctx) {
    ctx.assume(SEM);
    let t = ctx.thorough;
    let mut v = rec_typed(t);
    v.extend(crate::checks6::typed_chains(t));
    let run = judge_grams(ctx, &v, true);
    let mut run: Vec<Case> = rust_ok(run).into_iter().enumerate().filter(|(i, c)| t || c.g.rules.len() <= 5 || i % 5 == 0).map(|x| x.1).collect();
    ctx.note("accepted_run", J::Num(run.len() as f64));
    for (i, c) in run.iter_mut().enumerate() { c.typed = i % 2 == 0; c.rule = i % c.g.rules.len(); }
    run_cases(ctx, &run, &[std_inputs(4)], Opts::default());
}
