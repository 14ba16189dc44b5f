//! Checks of the language: classes, literals, syntax, diagnostics.
use crate::checks::*;
use crate::gens::*;
use crate::infra::*;
use crate::json::J;
use crate::model::*;
use crate::probe::*;
use crate::syntax::*;
use std::collections::{BTreeMap, BTreeSet};

/// A string literal of the Rust source: characters are escaped only when they must.
pub fn raw_lit(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' | '\\' => { o.push('\\'); o.push(c) } c if (c as u32) < 32 || c == '\u{7f}' => o.push_str(&format!("\\u{{{:x}}}", c as u32)), c => o.push(c) } }
    o
}

fn runs(f: impl Fn(char) -> bool, lo: u32, hi: u32) -> String {
    let mut v: Vec<(u32, u32)> = vec![];
    for c in (lo..=hi).filter_map(std::char::from_u32).filter(|c| f(*c)) {
        let c = c as u32;
        let prev = if c == 0xe000 { 0xd7ff } else { c.wrapping_sub(1) };
        match v.last_mut() { Some(l) if prev == l.1 => l.1 = c, _ => v.push((c, c)) }
    }
    v.iter().map(|(a, b)| format!("{:x}-{:x}", a, b)).collect::<Vec<_>>().join(" ")
}

/// Runs one rule on every Unicode scalar value, in slices.
fn sweep_cases(ctx: &Ctx, gs: &[Gram], texts: Option<&[String]>, slices: u32) {
    let mut v = vec![];
    let step = 0x110000 / slices;
    for (i, g) in gs.iter().enumerate() {
        for k in 0..slices {
            let mut c = Case::new(g.clone(), 0, 0);
            if let Some(t) = texts { c.text = Some(t[i].clone()); }
            let (lo, hi) = (k * step, if k + 1 == slices { 0x10ffff } else { (k + 1) * step - 1 });
            c.tag = format!("{} {}", lo, hi);
            c.go = Some(format!("pub fn go(_: &str) -> String {{ sweep(recognize_r, parse_r, {}, {}) }}", lo, hi));
            v.push(c);
        }
    }
    let f = |c: &Case, g: &G, _: &str, col: &[&str], n: &mut Count| -> Option<String> {
        if col.len() != 2 { return Some(format!("{:?}", col)); }
        if !col[1].is_empty() { return Some(col[1].into()); }
        let b: Vec<u32> = c.tag.split(' ').map(|x| x.parse().unwrap()).collect();
        let k = &g.nodes[g.roots[0]].k;
        let want = runs(|c| match k { K::Cls(v, _) => v.iter().any(|(a, b)| *a <= c && c <= *b), K::Lit(s, _) => s.len() == 1 && s[0] == c, _ => true }, b[0], b[1]);
        n.states += (b[1] - b[0] + 1) as u64;
        n.trans += 2 * (b[1] - b[0] + 1) as u64;
        if want != col[0] { Some(format!("matches the characters {} but must match {}", col[0], want)) } else { None }
    };
    run_cases(ctx, &v, &[vec![String::new()]], Opts { cmp: Some(&f), chunk: 8, ..Opts::default() });
}

/// Classes of n intervals, in many arrangements, on every character around.
fn many_intervals(ctx: &Ctx, t: bool) {
    let mut v = vec![];
    let mut inputs: Vec<Vec<String>> = vec![];
    let txt = |iv: &[(u32, u32)]| -> String { let c = |x: u32| std::char::from_u32(x).unwrap(); iv.iter().map(|(a, b)| if a == b { c(*a).to_string() } else { format!("{}-{}", c(*a), c(*b)) }).collect() };
    let mut add = |texts: Vec<String>, lo: u32, hi: u32| {
        let set = inputs.len();
        inputs.push((lo..=hi).filter_map(std::char::from_u32).map(|c| c.to_string()).chain([String::new()]).collect());
        for s in texts { v.push(Case::new(gram1(cls(&s)), set, R | P | VAL | PE)); }
    };
    // some singletons and one range anywhere among them
    for n in if t { vec![3, 7, 8, 9, 12, 15, 16, 17] } else { vec![3, 8] } {
        let base: Vec<u32> = (0..n).map(|k| 0x41 + 2 * k).collect();
        let mut texts = vec![];
        let top = 0x41 + 2 * n;
        for a in 0x41..top { for b in a..top {
            if !t && (a + b) % 2 == 1 && n > 3 { continue }
            for at in 0..=base.len() { if n > 3 && at > 1 && at + 1 < base.len() && (at as u32 + a + b) % 3 != 0 { continue }
                let mut iv: Vec<(u32, u32)> = base.iter().map(|x| (*x, *x)).collect();
                iv.insert(at, (a, b));
                texts.push(txt(&iv));
                if n == 3 { iv.reverse(); texts.push(txt(&iv)); }
            }
        } }
        add(texts, 0x3f, top + 1);
    }
    // regular arrangements of n intervals
    for n in if t { (2..=70).chain([127, 128, 129, 255, 256, 257]).collect::<Vec<u32>>() } else { vec![2, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65] } {
        let lo = if n <= 15 { 0x30 } else { 0x400 };
        let unit = |k: u32, a: u32, b: u32| (lo + 4 * k + a, lo + 4 * k + b);
        let mut shapes: Vec<Vec<(u32, u32)>> = vec![];
        let (a, b) = (lo, lo + 4 * n);
        for (x, y) in [(0, 0), (0, 1), (1, 3), (0, 3), (1, 4), (0, 6)] {
            let up: Vec<(u32, u32)> = (0..n).map(|k| unit(k, x, y)).collect();
            let mut down = up.clone();
            down.reverse();
            let mix: Vec<(u32, u32)> = up.iter().step_by(2).chain(up.iter().skip(1).step_by(2)).copied().collect();
            let twice: Vec<(u32, u32)> = up.iter().flat_map(|i| [*i, *i]).collect();
            let again: Vec<(u32, u32)> = up.iter().chain(down.iter()).copied().collect();
            let with = |v: &Vec<(u32, u32)>, at: usize, i: (u32, u32)| { let mut v = v.clone(); v.insert(at, i); v };
            for at in [0, n as usize / 2, n as usize] { shapes.push(with(&up, at, (a, b))); shapes.push(with(&down, at, (a + 4, b - 4))); shapes.push(with(&mix, at, (a + 2, a + 2 * n))); }
            shapes.extend([up, down, mix, twice, again]);
        }
        // nested, from the outside and from the inside
        let m = lo + 2 * n;
        let nest: Vec<(u32, u32)> = (0..n).map(|k| (m - 2 * (n - k), m + 2 * (n - k) - 1)).collect();
        shapes.push(nest.iter().rev().copied().collect());
        shapes.push(nest);
        // every width
        shapes.push((0..n).map(|k| unit(k, k % 4, 3)).collect());
        shapes.push((0..n).rev().map(|k| unit(k, 0, k % 5)).collect());
        add(shapes.iter().map(|s| txt(s)).collect(), lo - 2, b + 8);
    }
    for c in v.iter_mut() { c.tag = "many".into(); }
    run_cases(ctx, &dedup_cases(keep_valid(v)), &inputs, Opts::default());
}

pub fn c17(ctx: &Ctx) {
    ctx.assume("an interval whose bounds are in the wrong order denotes no character; whether it must be rejected is not documented, both verdicts are allowed");
    let t = ctx.thorough;
    // 1. every short class text: verdict, then every input
    let mut all = words(&["a", "b", "c", "-"], if t { 6 } else { 5 });
    all.extend(words(&["a", "-", "é", "\n", "\"", "\\", "]", "^", "😀"], if t { 4 } else { 3 }));
    all.sort();
    all.dedup();
    let ts: Vec<String> = all.iter().map(|s| format!("r = [\"{}\"]", esc(s))).collect();
    let j = verdicts(ctx, &ts);
    let mut keep = vec![];
    let (mut rejected, mut n) = (0, 0);
    for (i, s) in all.iter().enumerate() {
        n += 1;
        match (&j[i].v, class_of(s)) {
            (Verdict::Accepted, Err(_)) => ctx.violation(&ts[i], "this class text must be rejected".into(), ts[i].clone()),
            (Verdict::Rejected(e), Ok((v, _))) => { if v.iter().all(|(a, b)| a <= b) { ctx.violation(&ts[i], format!("this class must be accepted: {}", e.join(" | ")), ts[i].clone()) } }
            (Verdict::Rejected(_), Err(_)) => { rejected += 1; if !j[i].located { ctx.violation(&ts[i], "the diagnostic is not located in the grammar".into(), ts[i].clone()) } }
            (Verdict::Crash(e), _) => ctx.violation(&ts[i], e.clone(), ts[i].clone()),
            _ => keep.push(s.clone()),
        }
    }
    ctx.add(n, n, n);
    ctx.note("class_texts", J::Num(n as f64));
    ctx.note("class_texts_rejected", J::Num(rejected as f64));
    // 2. one, two or three intervals over four points: nested, overlapping, adjacent, in any order
    let pts = ['b', 'c', 'd', 'e'];
    let mut iv = vec![];
    for (i, a) in pts.iter().enumerate() { for b in &pts[i..] { iv.push(if a == b { a.to_string() } else { format!("{}-{}", a, b) }); } }
    for a in &iv { for b in &iv { keep.push(format!("{}{}", a, b)); if t { for c in &iv { keep.push(format!("{}{}{}", a, b, c)); } } } }
    keep.sort();
    keep.dedup();
    let step = if t { 1 } else { 2 };
    let mut v = vec![];
    for (i, s) in keep.iter().enumerate() {
        v.push(Case::new(gram1(cls(s)), 0, ALL));
        let c = || cls(s);
        let extra = [cho(vec![c(), E::Any]), seq(vec![opt(c()), E::Any]), seq(vec![not(c()), E::Any]), plus(c()), seq(vec![c(), c()]), seq(vec![and(c()), E::Any])];
        for (k, e) in extra.iter().enumerate() { if (i + k) % (6 * step) == 0 { v.push(Case::new(gram1(e.clone()), 0, ALL)); } }
        if (i % step) == 0 { let mut c = Case::new(gram1(cls(s)), 0, ALL); c.text = Some(format!("r = [\"{}\"]", raw_lit(s))); v.push(c); }
    }
    let alpha = ["a", "b", "c", "d", "e", "f", "-", "é", "\n", "\"", "\\", "]", "[", "^", "😀", "A", "\u{e8}", "\u{ea}", " "];
    let mut ins = words(&alpha, 1);
    ins.extend(words(&["a", "b", "-", "é"], 2).into_iter().filter(|w| w.chars().count() == 2));
    run_cases(ctx, &keep_valid(v), &[ins], Opts::default());
    many_intervals(ctx, t);
    // 3. every Unicode scalar value
    let mut big: Vec<&str> = vec!["a-z", "\0-\u{10ffff}", "\u{d7ff}-\u{e000}", "\u{7f}-\u{80}", "\u{7ff}-\u{800}", "\u{ffff}-\u{10000}", "é-ü", "a-zA-Z0-9_", "a-zc-d", "b-da-z", "\u{10ffff}", "\0", "ß", "-a", "a-", "😀-😅é"];
    if t { big.extend(["--", "\u{e000}-\u{ffff}", "K", "ſ", "^a", "\\n", "\n\r\t", "\"'", "\u{80}-\u{10ffff}", "\u{100}-\u{1ff}\u{150}-\u{250}", "I-İ", "０-９", "\u{301}", "\u{200d}", "\u{feff}", "\u{fffd}", "\u{10000}-\u{10ffff}", "中文", "a-aé-é", "b-a"]); }
    let gs: Vec<Gram> = big.iter().map(|s| gram1(cls(s))).collect();
    sweep_cases(ctx, &gs, None, 4);
    let texts: Vec<String> = ["é-ü", "😀-😅é"].iter().map(|s| format!("r = [\"{}\"]", raw_lit(s))).collect();
    sweep_cases(ctx, &[gram1(cls("é-ü")), gram1(cls("😀-😅é"))], Some(&texts), 4);
}

pub fn c18(ctx: &Ctx) {
    ctx.assume(SEM);
    let t = ctx.thorough;
    let alpha = ["a", "A", "b", "é", "É", "€", "😀", "\n", "\r", "\0", "\"", "\\", "'", " ", "e\u{301}"];
    let lits = words(&alpha, 2);
    let mut longer = words(&["a", "é", "€", "😀"], if t { 4 } else { 3 });
    longer.retain(|w| w.chars().count() > 2);
    let mut ins = words(&alpha, 2);
    ins.extend(words(&["a", "é", "€", "😀"], 4).into_iter().filter(|w| w.chars().count() > 2));
    for w in words(&alpha, 1) { for s in ["a", "é", "A", "😀", "\r\n"] { ins.push(format!("{}{}a", w, s)); ins.push(format!("a{}{}", w, s)); } }
    ins.sort();
    ins.dedup();
    let mut v = vec![];
    for (i, s) in lits.iter().chain(longer.iter()).enumerate() {
        let l = || lit(s);
        v.push(Case::new(gram1(l()), 0, ALL));
        let mut c = Case::new(gram1(seq(vec![l(), E::Any])), 0, ALL);
        c.text = Some(format!("r = \"{}\" .", raw_lit(s)));
        v.push(c);
        let shapes = [seq(vec![E::Any, l()]), seq(vec![opt(l()), E::Any]), seq(vec![star(seq(vec![not(l()), E::Any])), l()]), cho(vec![seq(vec![l(), E::Any]), E::Any]), seq(vec![l(), l()]), spn(seq(vec![E::Any, l()])), seq(vec![and(l()), E::Any, opt(E::Any)])];
        for (k, e) in shapes.iter().enumerate() { if t || (i + k) % 4 == 0 { v.push(Case::new(gram1(e.clone()), 0, ALL)); } }
        // raw string literals of the source
        if !s.contains('"') && !s.chars().any(|c| (c as u32) < 32) { let mut c = Case::new(gram1(l()), 0, ALL); c.text = Some(format!("r = r\"{}\"", s)); v.push(c); }
        else if !s.chars().any(|c| (c as u32) < 32) { let mut c = Case::new(gram1(l()), 0, ALL); c.text = Some(format!("r = r##\"{}\"##", s)); v.push(c); }
    }
    // other escapes of the source
    for (text, s) in [("\\x41", "A"), ("\\n", "\n"), ("\\r\\n", "\r\n"), ("\\t", "\t"), ("\\0", "\0"), ("\\'", "'"), ("\\\\n", "\\n"), ("\\u{1F600}", "😀"), ("\\x7f", "\u{7f}"), ("\\u{10ffff}", "\u{10ffff}"), ("\\\"", "\"")] {
        let mut c = Case::new(gram1(lit(s)), 1, ALL);
        c.text = Some(format!("r = \"{}\"", text));
        v.push(c);
        let mut c = Case::new(gram1(seq(vec![lit(s), cls(s)])), 1, ALL);
        c.text = Some(format!("r = \"{}\" [\"{}\"]", text, text));
        v.push(c);
    }
    for n in 1..=4 { v.push(Case::new(gram1(seq(vec![E::Any; n])), 0, ALL)); v.push(Case::new(gram1(seq(vec![plus(E::Any), not(E::Any)])), 0, ALL)); v.push(Case::new(gram1(star(seq(vec![E::Any; n]))), 0, ALL)); }
    // literals at the bounds of the encodings, against each other
    let bounds: Vec<String> = ["\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\0", "\u{fffd}"].iter().map(|s| s.to_string()).collect();
    for b in &bounds { v.push(Case::new(gram1(lit(b)), 2, ALL)); for c in &bounds { v.push(Case::new(gram1(cho(vec![lit(&format!("{}{}", b, c)), seq(vec![lit(b), E::Any]), E::Any])), 2, ALL)); } }
    let mut bi = words(&bounds.iter().map(|s| &s[..]).collect::<Vec<_>>(), 2);
    bi.push("\u{10000}\u{10ffff}\0".into());
    let mut esc_ins = words(&["A", "\n", "\r\n", "\t", "\0", "'", "\\n", "\\", "😀", "\u{7f}", "\"", "\u{10ffff}"], 2);
    esc_ins.push("x41".into());
    run_cases(ctx, &keep_valid(v), &[ins, esc_ins, bi], Opts::default());
    // long literals, and what differs from them by a character
    let mut v = vec![];
    let mut sets = vec![];
    for n in if t { vec![7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 65535, 65536] } else { vec![8, 16, 32, 64, 128, 255, 256, 1024, 65536] } { for (ui, unit) in ["a", "é", "ab", "€b"].iter().enumerate() {
        if n > 2000 && ui > 1 { continue; }
        let w: Vec<char> = unit.chars().cycle().take(n).chain("cd".chars()).collect();
        let text = |w: &[char]| w.iter().collect::<String>();
        let full = text(&w);
        let near = |at: usize| { let mut x = w.clone(); x[at] = 'x'; text(&x) };
        let mut ins = vec![full.clone(), format!("{}d", full), format!("a{}", full), format!("é{}", full), text(&w[..n + 1]), text(&w[..n]), text(&w[..n / 2]), full.to_uppercase(), format!("{}{}", full, full), String::new()];
        for at in [0, 1, n / 2, n - 1, n, n + 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 1023, 1024] { if at < n + 2 { ins.push(near(at)); } }
        ins.sort();
        ins.dedup();
        let set = sets.len();
        sets.push(ins);
        let mut es = vec![lit(&full), seq(vec![opt(lit(&full)), E::Any]), cho(vec![lit(&full), lit(&near(n + 1)), lit(&text(&w[..n]))]), cho(vec![lit(&near(n / 2)), seq(vec![lit(&text(&w[..n])), lit("c")])])];
        if n < 300 { es.extend(vec![seq(vec![star(seq(vec![not(lit(&full)), E::Any])), lit(&full)]), seq(vec![and(lit(&text(&w[..n + 1]))), plus(cls(unit)), lit("cd")]), spn(seq(vec![E::Any, lit(&full)]))]); }
        for e in es { v.push(Case::new(gram1(e), set, ALL)); }
    } }
    run_cases(ctx, &keep_valid(v), &sets, Opts::default());
    let mut gs = vec![gram1(E::Any), gram1(lit("é")), gram1(lit("\u{10ffff}"))];
    if t { for l in ["a", "\0", "\n", "K", "ß", "\u{800}", "\u{10000}", "İ", "\u{fffd}"] { gs.push(gram1(lit(l))); } }
    sweep_cases(ctx, &gs, None, 4);
}

// ---------------------------------------------------------------------------------------------
// Syntax

/// The grammar of a text: names which are not rules become external rules of unknown type.
pub fn to_gram(blocks: &[Block], names: &[String]) -> Gram {
    let n = blocks.len();
    fn go(e: &E, n: usize, names: &[String]) -> E { match e { E::Nt(k) if *k >= n => E::Ext(*k, names[*k].clone()), e => e.map_children(&mut |x| go(x, n, names)) } }
    let mut g = Gram { rules: blocks.iter().map(|b| Rule { name: b.name.clone(), asc: b.asc.clone(), e: go(&b.e, n, names), external: false }).collect(), ..Default::default() };
    for x in &names[n..] { g.rules.push(Rule { name: x.clone(), asc: Some("V".into()), e: E::Any, external: true }); }
    g
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ref { Ok, Syntax(bool), Dup, Ill, Gray }

/// The reference verdict on a text. Names of the rules: in order of appearance.
pub fn reference(toks: &[Tok]) -> (Ref, Option<Gram>) {
    // the names of the rules are known beforehand: a name followed by = at any level is a rule only if it is at the top, which is checked by the parser
    let mut rules: Vec<&str> = vec![];
    let mut depth = 0;
    for i in 0..toks.len() {
        if toks[i] == "(" { depth += 1 } else if toks[i] == ")" { depth -= 1 }
        let next = |k: usize| toks.get(i + k).copied().unwrap_or("");
        if depth == 0 && is_name(toks[i]) && (next(1) == "=" || is_type(next(1)) && next(2) == "=") { rules.push(toks[i]); }
    }
    let mut p = P::new(toks, &rules);
    match p.blocks() {
        Err(end) => (Ref::Syntax(end), None),
        Ok(b) => {
            let set: BTreeSet<&String> = b.iter().map(|x| &x.name).collect();
            if set.len() != b.len() { return (Ref::Dup, None); }
            if b.is_empty() { return (Ref::Syntax(true), None); }
            let g = to_gram(&b, &p.names);
            let mut a = G::new(&g);
            let v = crate::typing::infer(&mut a);
            let wf = well_formed(&a).is_ok();
            if wf && v.gray { return (Ref::Gray, Some(g)); }
            (if wf && v.ok() { Ref::Ok } else { Ref::Ill }, Some(g))
        }
    }
}

/// `:(V) +` would be read as a Rust type with two bounds.
fn trap(t: &[Tok]) -> bool { t.windows(2).any(|w| w[0] == ":(V)" && w[1] == "+") }

pub fn judge_texts(ctx: &Ctx, texts: &[Vec<Tok>], suffix: &str) -> Vec<(usize, Gram)> {
    let ts: Vec<String> = texts.iter().map(|t| format!("{} {}", t.join(" "), suffix)).collect();
    let j = verdicts(ctx, &ts);
    let mut count: BTreeMap<&str, u64> = BTreeMap::new();
    let mut ok = vec![];
    let (mut st, mut tr) = (0, 0);
    for (i, t) in texts.iter().enumerate() {
        let (r, g) = reference(t);
        st += t.len() as u64 + 1;
        tr += t.len() as u64;
        *count.entry(match r { Ref::Ok => "valid", Ref::Syntax(_) => "syntax_errors", Ref::Dup => "duplicates", Ref::Ill => "ill_formed_or_ill_typed", Ref::Gray => "not_documented" }).or_default() += 1;
        let src = || ts[i].clone();
        match (&j[i].v, &r) {
            (Verdict::Crash(s), _) => ctx.violation(&ts[i], format!("Oak does not answer: {}", s), src()),
            (_, Ref::Gray) => (),
            (Verdict::Accepted, Ref::Ok) => ok.push((i, g.unwrap())),
            (Verdict::Accepted, r) => ctx.violation(&ts[i], format!("accepted, but it must be rejected ({:?})", r), src()),
            (Verdict::Rejected(e), Ref::Ok) => ctx.violation(&ts[i], format!("rejected, but it is valid: {}", e.join(" | ")), src()),
            (Verdict::Rejected(e), r) => {
                if !j[i].located && *r != Ref::Syntax(true) { ctx.violation(&ts[i], format!("no diagnostic points inside the grammar: {}", e.join(" | ")), src()) }
            }
        }
    }
    for (k, v) in count { ctx.note_add(k, v); }
    ctx.add(st, tr, texts.len() as u64);
    ctx.grammars.fetch_add(texts.len() as u64, std::sync::atomic::Ordering::Relaxed);
    for i in (0..texts.len()).step_by(texts.len() / 4 + 1) { ctx.sample(format!("{} : {}", ts[i], j[i].v.text())); }
    ok
}

const A22: &[Tok] = &["\"a\"", ".", "[\"a\"]", "s", "?", "*", "+", "!", "&", "/", ">", "f", ":()", ":(^)", ":(V)", "(", ")", "..", "...", "=", "box", "\"\""];
const A12: &[Tok] = &["\"a\"", "s", "?", "+", "!", "/", ">", "f", ":()", "(", ")", ".."];
const A8: &[Tok] = &["\"a\"", "?", "!", "/", "(", ")", ".."];

pub fn body_texts(t: bool) -> Vec<Vec<Tok>> {
    let mut v: Vec<Vec<Tok>> = vec![];
    for n in 0..=(3 + t as usize) { v.extend(strings(if n > 3 { &A22[..18] } else { A22 }, n)); }
    v.extend(strings(A12, 4 + t as usize));
    v.extend(strings(A8, 5 + t as usize));
    let mut seen = std::collections::HashSet::new();
    v.retain(|t| seen.insert(t.clone()) && !trap(t));
    v
}

/// What the texts may refer to without declaring it.
const OUTSIDE: &str = "mod ext { pub struct X; pub fn recognize_r() {} pub fn parse_r() {} pub fn recognize_s() {} pub fn parse_s() {} } use self::ext::*;";
pub const FN_F: &str = "pub fn f() -> V { V } pub struct V; mod ext { pub fn recognize_r() {} pub fn parse_r() {} pub fn recognize_s() {} pub fn parse_s() {} pub fn recognize_f() {} pub fn parse_f() {} } use self::ext::*;";

pub fn c20(ctx: &Ctx) {
    ctx.assume("the reference parser of the grammar language (mc/src/syntax.rs) is written from the manual; an error found at the end of a text or of a group may be reported on the whole invocation");
    let t = ctx.thorough;
    // 1. token strings as a rule body
    let mut texts: Vec<Vec<Tok>> = body_texts(t).into_iter().map(|b| { let mut v = vec!["s", "=", "\"b\"", "r", "="]; v.extend(b); v }).collect();
    // 2. token strings as a whole grammar
    let whole: &[Tok] = &["r", "s", "=", "\"a\"", "/", ":(^)"];
    for n in 0..=(5 + t as usize) { texts.extend(strings(whole, n)); }
    for n in 1..=4 { for b in strings(&["r", "s", "=", "\"a\"", "/", ":(^)", "?"], n) { let mut v = vec!["r", "="]; v.extend(b); texts.push(v); } }
    judge_texts(ctx, &texts, FN_F);
    // 3. foreign tokens in valid bodies
    let foreign: &[Tok] = &["'c'", "1", ",", ";", "%", "^", "-", "{}", "[]", "[\"a\" \"b\"]", "[a]", "@", "|", "=>", "==", "~", "$", "#", "b\"a\"", "1.5", "'a", ": ?", ": /", ": =", ": \"a\"", "()", "_", "let", "[\"\"]", "[\"a--b\"]", "->", "..=", "fn", "> \"a\"", "> (f)", "! ?", "& *"];
    let mut bad: Vec<Vec<Tok>> = vec![];
    let mut places: Vec<usize> = vec![];
    let mut bodies: Vec<Vec<Tok>> = vec![];
    for n in 1..=(2 + t as usize) { bodies.extend(strings(&["\"a\"", "s", ".", "/", "?", "!", "> f", "(", ")", ".."], n)); }
    bodies.retain(|b| { let mut v = vec!["s", "=", "\"b\"", "r", "="]; for x in b { if *x == "> f" { v.push(">"); v.push("f") } else { v.push(x) } } reference(&v).1.is_some() });
    for b in &bodies { for p in 0..=b.len() { for f in foreign {
        if *f == "->" && p == 0 || *f == "'a" && p > 0 && b[p - 1] == "&" { continue; }
        let mut v = vec!["s", "=", "\"b\"", "r", "="];
        v.extend(&b[..p]);
        v.push(f);
        v.extend(&b[p..]);
        bad.push(v);
        places.push(p);
    } } }
    let ts: Vec<String> = bad.iter().map(|t| format!("{} {}", t.join(" "), FN_F)).collect();
    let before: Vec<usize> = bad.iter().zip(&places).map(|(t, p)| t[..*p + 3].iter().map(|x| x.chars().count() + 1).sum()).collect();
    let at: Vec<usize> = bad.iter().zip(&places).map(|(t, p)| t[..*p + 5].iter().map(|x| x.chars().count() + 1).sum()).collect();
    let j = verdicts(ctx, &ts);
    for (i, s) in ts.iter().enumerate() {
        match &j[i].v {
            Verdict::Crash(e) => ctx.violation(s, format!("Oak does not answer: {}", e), s.clone()),
            Verdict::Accepted => ctx.violation(s, "accepted with a token which does not belong to the language".into(), s.clone()),
            Verdict::Rejected(e) => {
                if !j[i].located { ctx.violation(s, format!("no diagnostic points inside the grammar: {}", e.join(" | ")), s.clone()) }
                // what precedes the token is the beginning of a valid grammar: the error is at the token, at the operator or the name before, or after
                else if let Some((lo, _)) = j[i].espans.iter().flatten().next() { if *lo < before[i] || *lo > at[i] + 20 { ctx.violation(s, format!("the error is at the character {} but the stray token is at {}: {}", lo, at[i], e.join(" | ")), s.clone()) } }
            }
        }
    }
    ctx.add(ts.len() as u64, ts.len() as u64, ts.len() as u64);
    ctx.note("foreign_tokens", J::Num(ts.len() as f64));
    // 4. sequences of blocks
    let pool: &[(&str, &str)] = &[("r", "r = \"a\""), ("s", "s = r:(^)"), ("r", "r:(^) = \"b\" s:(^)"), ("f", "pub fn f() -> u32 { 0 }"), ("f", "fn f(x: char) {}"), ("g", "fn g() -> char { 'c' }"), ("", "pub struct X { a: u32 }"), ("", "use std::fmt;"), ("", "mod m { pub fn f() {} }"), ("", "#![unknown_attribute]"), ("", "type A = u32;"), ("", "const C: char = 'c';"), ("", "impl X { fn f(&self) {} }"), ("", "type Stream<'a> = StrStream<'a>;")];
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..(3 + t as usize) {
        let mut next = vec![];
        for s in &seqs { for k in 0..pool.len() { let mut s = s.clone(); s.push(k); next.push(s); } }
        all.extend(next.iter().cloned());
        seqs = next;
    }
    // the same item twice is the business of rustc, except for attributes
    all.retain(|s| (6..pool.len()).all(|i| s.iter().filter(|k| **k == i).count() < 2));
    // the attributes come first
    all.retain(|s| s.iter().skip(1).all(|k| !pool[*k].1.starts_with("#!")));
    let ts: Vec<String> = all.iter().map(|s| format!("{} {}", s.iter().map(|k| pool[*k].1).collect::<Vec<_>>().join(" "), OUTSIDE)).collect();
    let j = verdicts(ctx, &ts);
    for (i, s) in all.iter().enumerate() {
        let names: Vec<&str> = s.iter().map(|k| pool[*k].0).filter(|x| !x.is_empty()).collect();
        let set: BTreeSet<&str> = names.iter().cloned().collect();
        let rules = names.iter().any(|x| *x == "r" || *x == "s");
        let dup = set.len() != names.len();
        // s calls r and r calls s behind a literal: never left recursive
        match &j[i].v {
            Verdict::Crash(e) => ctx.violation(&ts[i], format!("Oak does not answer: {}", e), ts[i].clone()),
            Verdict::Accepted => if dup || !rules { ctx.violation(&ts[i], format!("accepted {}", if dup { "with a duplicate definition" } else { "without any rule" }), ts[i].clone()) },
            Verdict::Rejected(e) => {
                if !dup && rules { ctx.violation(&ts[i], format!("rejected, but it is valid: {}", e.join(" | ")), ts[i].clone()) }
                else if dup && !j[i].located { ctx.violation(&ts[i], format!("no diagnostic points inside the grammar: {}", e.join(" | ")), ts[i].clone()) }
            }
        }
    }
    ctx.add(ts.len() as u64, ts.len() as u64, ts.len() as u64);
    ctx.note("block_sequences", J::Num(ts.len() as f64));
    // the same name twice, declared in any way
    duplicates(ctx, t);
    // ill-formed expressions anywhere in the grammar
    let mut fam = wf_exprs(4);
    fam.extend(cap(wf_rec(false), if t { 2 } else { 8 }));
    let mut ill = vec![];
    for (i, g) in fam.into_iter().enumerate() {
        if wf_of(&g).is_empty() { continue; }
        let n = g.rules.len();
        for p in [0, n] { if t || p == i % (n + 1) || i % 3 == 0 {
            let mut h = g.clone().renumber(&(0..n).map(|k| if k < p { k } else { k + 1 }).collect::<Vec<_>>());
            h.rules.insert(p, rule("first", lit("z")));
            ill.push(h);
        } }
    }
    let ts = crate::checks::texts(&ill);
    let j = verdicts(ctx, &ts);
    for (i, g) in ill.iter().enumerate() {
        match &j[i].v {
            Verdict::Crash(e) => ctx.violation(&ts[i], format!("Oak does not answer: {}", e), ts[i].clone()),
            Verdict::Accepted => ctx.violation(&ts[i], "accepted but ill-formed".into(), ts[i].clone()),
            Verdict::Rejected(e) => if let Some(w) = misplaced(g, e, &j[i].espans) { ctx.violation(&ts[i], w, ts[i].clone()) },
        }
    }
    ctx.add(ts.len() as u64, ts.len() as u64, ts.len() as u64);
    ctx.note("ill_formed_located", J::Num(ts.len() as f64));
    // 5. undefined rules: nothing of that name exists outside either
    undefined(ctx, t);
}

/// Two functions or two rules with the same name, in every form, with something between or around.
fn duplicates(ctx: &Ctx, t: bool) {
    let fns = ["fn f() -> u32 { 0 }", "pub fn f() -> u32 { 1 }", "#[inline] fn f() -> u32 { 2 }", "/** Doc. */ pub fn f() {}", "#[cfg(test)] fn f() -> u32 { 3 }", "unsafe fn f() -> u32 { 4 }", "const fn f() -> u32 { 5 }", "fn f<T>(x: T) -> T { x }", "fn f<'a>(x: &'a str) -> &'a str where 'a: 'a { x }", "pub(crate) fn f() -> u32 { 6 }", "extern \"C\" fn f() {}", "#[allow(dead_code)] #[inline] pub fn f(a: char, b: u32) -> char { a }", "fn f() -> ! { loop {} }", "fn f(_: ()) -> Vec<Vec<char>> { vec![] }"];
    let rules = ["f = \"a\"", "f:(^) = \"b\"", "f: u32 = \"b\" > g", "f = [\"a\"] .", "f = r:(^) \"a\"", "f = \"x\" f?"];
    let others = ["", "r = \"z\"", "fn g() -> u32 { 7 }", "#[inline] fn g() -> u32 { 7 }", "struct X;", "use std::fmt;", "mod m { pub fn f() {} }", "trait Tr { fn f(); }"];
    let (mut ts, mut dup): (Vec<String>, Vec<bool>) = (vec![], vec![]);
    let mut add = |v: Vec<&str>, d: bool| {
        let mut v: Vec<&str> = v.into_iter().filter(|x| !x.is_empty()).collect();
        if !v.iter().any(|x| x.starts_with("r =")) { v.push("r = \"z\""); }
        if v.iter().any(|x| x.contains("> g")) && !v.iter().any(|x| x.contains("fn g()")) { v.push("fn g() -> u32 { 7 }"); }
        ts.push(v.join(" "));
        dup.push(d);
    };
    for a in &fns { for b in &fns { for (i, o) in others.iter().enumerate() { for (j, p) in others.iter().enumerate() {
        if !t && i > 0 && j > 0 || i == j && i > 0 || i + j == 5 && i > 1 && j > 1 { continue; }
        add(vec![p, a, o, b], true);
        if t || (i + j) % 3 == 1 { add(vec![a, o, b, p], true); }
    } } } }
    for a in &rules { for b in &rules { for (i, o) in others.iter().enumerate() { for (j, p) in others.iter().enumerate() {
        if i == j && i > 0 || i + j == 5 && i > 1 && j > 1 { continue; }
        add(vec![p, a, o, b], true);
    } } } }
    // three of them
    for a in &fns { for b in &rules { for c in &fns[..if t { fns.len() } else { 4 }] { add(vec![a, b, c], true); } for c in &rules { add(vec![b, a, c], true); } } }
    // only one of each: a function and a rule may share their name
    for a in &fns { for o in &others { for p in &others { if o == p || o.contains("fn g") && p.contains("fn g") { continue; } add(vec![p, a, o], false); } } for b in &rules { if !b.contains("f?") || true { add(vec![a, b], false); add(vec![b, a], false); } } }
    for b in &rules { for o in &others { add(vec![b, o], false); } }
    // among many other definitions, near or far
    for n in if t { vec![1, 2, 3, 4, 5, 6, 7, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 129, 256, 257, 300] } else { vec![2, 5, 8, 17, 33, 65, 130, 257] } {
        let fill: Vec<String> = (0..n).map(|i| if i % 3 == 2 { format!("fn h{}() -> u32 {{ {} }}", i, i) } else { format!("n{} = \"b\"", i) }).collect();
        let places: BTreeSet<usize> = if n <= 8 { (0..=n).collect() } else { vec![0, 1, n / 3, n / 2, n - 1, n].into_iter().collect() };
        for (k, d) in [(rules[0], rules[1]), (rules[5], rules[0]), (fns[0], fns[2]), (fns[11], fns[1]), (rules[0], fns[0])].iter().enumerate() {
            for a in &places { for b in places.iter().filter(|b| **b >= *a) {
                let mut v: Vec<&str> = fill[..*a].iter().map(|x| &x[..]).collect();
                v.push(d.0);
                v.extend(fill[*a..*b].iter().map(|x| &x[..]));
                v.push(d.1);
                v.extend(fill[*b..].iter().map(|x| &x[..]));
                add(v, k < 4);
            } }
        }
    }
    let j = verdicts(ctx, &ts);
    for (i, s) in ts.iter().enumerate() {
        match &j[i].v {
            Verdict::Crash(e) => ctx.violation(s, format!("Oak does not answer: {}", e), s.clone()),
            Verdict::Accepted if dup[i] => ctx.violation(s, "accepted with a duplicate definition".into(), s.clone()),
            Verdict::Rejected(e) if !dup[i] => ctx.violation(s, format!("rejected, but it is valid: {}", e.join(" | ")), s.clone()),
            Verdict::Rejected(e) => {
                if !e.iter().any(|m| m.contains("duplicate definition")) { ctx.violation(s, format!("a duplicate definition is reported as {}", e.join(" | ")), s.clone()) }
                else if !j[i].located { ctx.violation(s, format!("no diagnostic points inside the grammar: {}", e.join(" | ")), s.clone()) }
                else if let Some(w) = e.iter().zip(&j[i].espans).filter(|(m, _)| m.contains("duplicate definition")).filter_map(|(_, x)| match x { Some((lo, hi)) => { let at: String = s.chars().skip(*lo).take(hi - lo).collect(); if !at.contains('f') { Some(format!("the duplicate definition of f is reported at {:?}", at)) } else { None } } None => Some("a duplicate definition is not located".into()) }).next() { ctx.violation(s, w, s.clone()) }
            }
            _ => (),
        }
    }
    ctx.add(ts.len() as u64, ts.len() as u64, ts.len() as u64);
    ctx.note("duplicates", J::Num(ts.len() as f64));
}

/// A rule called which exists nowhere is an error, on the call.
fn undefined(ctx: &Ctx, t: bool) {
    let cx = contexts(&[lit("b"), opt(lit("c"))]);
    let mut es: Vec<E> = vec![];
    let hole = || E::Ext(1, "undefined_rule".into());
    for a in &cx { es.push(a(asc(hole(), "(^)"))); if t { for b in &cx { es.push(a(b(asc(hole(), "(^)")))); } } else { es.push(a(seq(vec![lit("d"), asc(hole(), "(^)")]))); } es.push(seq(vec![lit("z"), a(asc(hole(), "()"))])); }
    es.push(asc(hole(), "V"));
    es.push(rng(hole()));
    es.push(and(hole()));
    let mut n = 0;
    let mut units = vec![];
    for e in es.into_iter().filter(locally_wf) {
        let g = Gram { rules: vec![rule("r", e), Rule { name: "undefined_rule".into(), asc: None, e: E::Any, external: true }], ..Default::default() };
        let a = G::new(&g);
        if well_formed(&a).is_err() { continue; }
        let id = units.len();
        units.push(Unit { id, code: format!("mod g{} {{ use super::rt::*; use oak::oak; oak! {{ {} }} }}", id, g.render()), table: String::new() });
        n += 1;
    }
    let hd = header(&[vec![]]);
    let res = ctx.compile(&hd, &units, MAIN, &["--emit=metadata"], true);
    for u in &units {
        match res.failed.get(&u.id) {
            None => ctx.violation(&u.code, "a rule which exists nowhere is called, but the grammar compiles".into(), u.code.clone()),
            Some(CompileFail::Crash(s)) => ctx.violation(&u.code, s.clone(), u.code.clone()),
            Some(CompileFail::Diags(v)) => if !v.iter().any(|m| m.contains("undefined_rule")) { ctx.violation(&u.code, format!("the diagnostic does not name the undefined rule: {}", v.join(" | ")), u.code.clone()) },
        }
    }
    ctx.add(n, n, n);
    ctx.note("undefined_rules", J::Num(n as f64));
}
