//! Runs families of grammars on the implementation, and compares with the reference model.
use crate::infra::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

pub const R: u16 = 1; // recognizer: success and position
pub const P: u16 = 2; // parser: success and position
pub const RE: u16 = 4; // recognizer: farthest failure
pub const PE: u16 = 8; // parser: farthest failure
pub const VAL: u16 = 16; // value of the parser
pub const LOG: u16 = 32; // actions called by the parser
pub const RLOG: u16 = 64; // no action called by the recognizer
pub const AGREE: u16 = 128; // the two functions agree, without the model
pub const ALL: u16 = R | P | RE | PE | VAL | LOG | RLOG;

#[derive(Clone)]
pub struct Case {
    pub g: Gram,
    /// rule observed
    pub rule: usize,
    /// number of the input set
    pub set: usize,
    pub mask: u16,
    /// state the type of the parser
    pub typed: bool,
    /// Rust items of the module, before the grammar ("super::rt::*" is in scope)
    pub pre: String,
    /// other text than g.render() + action declarations
    pub text: Option<String>,
    pub rule_ty: Vec<Option<T>>,
    pub action_ty: Vec<(String, String)>,
    /// Rust expression of type rt::Go instead of the default
    pub go: Option<String>,
    pub tag: String,
    /// replacements made in the source
    pub subst: Vec<(String, String)>,
}

impl Case {
    pub fn new(g: Gram, set: usize, mask: u16) -> Case {
        Case { g, rule: 0, set, mask, typed: false, pre: String::new(), text: None, rule_ty: vec![], action_ty: vec![], go: None, tag: String::new(), subst: vec![] }
    }
    pub fn arena(&self) -> (G, Result<(), TyErr>) {
        let mut g = G::new(&self.g);
        for (i, t) in self.rule_ty.iter().enumerate() { g.rule_ty[i] = t.clone(); }
        for (n, t) in &self.action_ty { g.action_ty.insert(n.clone(), t.clone()); }
        let r = g.type_all();
        (g, r)
    }
    pub fn source(&self, g: &G) -> String {
        let mut s = match &self.text { Some(t) => t.clone(), None => self.g.render() };
        if self.text.is_none() {
            for (_, d, known) in g.action_decls() { if known { s.push(' '); s.push_str(&d); } }
        }
        for (a, b) in &self.subst { s = s.replace(a, b); }
        s
    }
    pub fn unit(&self, id: usize, g: &G) -> Unit {
        let mut pre = self.pre.clone();
        let ext: Vec<String> = g.action_decls().into_iter().filter(|x| !x.2).map(|x| x.1).collect();
        if !ext.is_empty() { pre.push_str(&format!(" pub mod ea {{ use super::*; {} }}", ext.join(" "))); }
        let name = &g.names[self.rule];
        let go = match &self.go {
            Some(x) => x.clone(),
            None if self.typed => format!("pub fn go<'a>(i: &'a str) -> String {{ obs::<{}>(i, recognize_{n}, parse_{n}) }}", g.ty_of_rule(self.rule).rust(), n = name),
            None => format!("pub fn go(i: &str) -> String {{ obs(i, recognize_{n}, parse_{n}) }}", n = name),
        };
        Unit { id, code: format!("mod g{} {{ use super::rt::*; use oak::oak; {} oak! {{ {} }} {} }}", id, pre, self.source(g), go).replace("MOD_ID", &format!("g{}", id)),
            table: format!("({}, {}, g{}::go as rt::Go),", id, self.set, id) }
    }
}

/// Accepted by the reference model: well-formed and well-typed.
pub fn valid(g: &G, typed: &Result<(), TyErr>) -> bool { typed.is_ok() && well_formed(g).is_ok() }

pub fn header(inputs: &[Vec<String>]) -> String {
    let mut h = include_str!("../../probes/rt.rs").to_string();
    h.push_str("extern crate self as me;\n");
    h.push_str("pub static INPUTS: &[&[&str]] = &[\n");
    for s in inputs {
        h.push_str("&[");
        for i in s { h.push_str(&format!("\"{}\",", esc(i))); }
        h.push_str("],\n");
    }
    h.push_str("];");
    h
}

pub const MAIN: &str = "fn main() { rt::drive(table(), INPUTS) }\n";

pub fn exps(s: &str) -> BTreeSet<String> { s.split('\u{1f}').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect() }

/// First difference between what is observed and the model, if any.
pub fn against_model(c: &Case, g: &G, input: &str, col: &[&str], n: &mut Count) -> Option<String> {
    let m = c.mask;
    let o = match observe(g, c.rule, input, n) {
        Ok(o) => o,
        Err(_) => return Some(String::from("the reference semantics diverges but the grammar is accepted")),
    };
    diff(m, &o, col)
}

pub fn diff(m: u16, o: &Obs, col: &[&str]) -> Option<String> {
    if col.len() < 11 { return Some(format!("answers {:?}", col)); }
    let b = |x: bool| if x { "1" } else { "0" };
    let end = |ok: bool, e: usize| if ok { format!("matches up to {}", e) } else { "fails".to_string() };
    let obs_end = |ok: &str, e: &str| if ok == "1" { format!("matches up to {}", e) } else { "fails".to_string() };
    if m & R != 0 && (col[0] != b(o.rok) || (o.rok && col[1] != o.rend.to_string())) {
        return Some(format!("recognizer {} but must: {}", obs_end(col[0], col[1]), end(o.rok, o.rend)));
    }
    if m & P != 0 && (col[4] != b(o.pok) || (o.pok && col[5] != o.pend.to_string())) {
        return Some(format!("parser {} but must: {}", obs_end(col[4], col[5]), end(o.pok, o.pend)));
    }
    let escd = |s: &BTreeSet<String>| s.iter().map(|x| esc(x)).collect::<BTreeSet<_>>();
    if m & RE != 0 && (col[2] != o.rfar.to_string() || exps(col[3]) != escd(&o.rexp)) {
        return Some(format!("recognizer reports farthest failure {} expecting {:?} but must: {} {:?}", col[2], exps(col[3]), o.rfar, o.rexp));
    }
    if m & PE != 0 && (col[6] != o.pfar.to_string() || exps(col[7]) != escd(&o.pexp)) {
        return Some(format!("parser reports farthest failure {} expecting {:?} but must: {} {:?}", col[6], exps(col[7]), o.pfar, o.pexp));
    }
    if m & AGREE != 0 {
        if col[0] != col[4] || (col[0] == "1" && col[1] != col[5]) {
            return Some(format!("recognizer {} but parser {}", obs_end(col[0], col[1]), obs_end(col[4], col[5])));
        }
        if col[8].starts_with('!') { return Some(format!("parser: {}", col[8])); }
    }
    if m & VAL != 0 && (col[4] == "1") && o.pok && col[8] != o.val {
        return Some(format!("parser returns {} but must return {}", col[8], o.val));
    }
    if m & VAL != 0 && col[4] == "0" && !col[8].is_empty() { return Some(format!("parser fails with data {}", col[8])); }
    if m & RLOG != 0 && !col[9].is_empty() { return Some(format!("recognizer calls {}", col[9])); }
    if m & LOG != 0 && col[10] != o.log.join(";") {
        return Some(format!("parser calls [{}] but must call [{}]", col[10], o.log.join(";")));
    }
    None
}

pub struct Opts<'x> { pub chunk: usize, /// greatest tuple shown, if more than 12
 pub tuples: usize, pub extra: &'x str, pub cmp: Option<&'x (dyn Fn(&Case, &G, &str, &[&str], &mut Count) -> Option<String> + Sync)> }
impl<'x> Default for Opts<'x> { fn default() -> Self { Opts { chunk: 0, tuples: 0, extra: "", cmp: None } } }

/// Compiles and runs all the cases on all their inputs.
pub fn run_cases(ctx: &Ctx, cases: &[Case], inputs: &[Vec<String>], o: Opts) {
    if cases.is_empty() { return; }
    let more: String = (13..=o.tuples).map(|n| format!("tup!({}); ", (0..n).map(|i| format!("A{}", i)).collect::<Vec<_>>().join(" "))).collect();
    let chunk = if o.chunk > 0 { o.chunk } else { ((cases.len() + 7) / 8).clamp(20, 700) };
    let idx: Vec<usize> = (0..cases.len()).collect();
    // by chunks; a case of many rules counts for several
    let mut chunks: Vec<&[usize]> = vec![];
    let (mut from, mut weight) = (0, 0);
    for i in 0..cases.len() {
        weight += 1 + cases[i].g.rules.len() / 4;
        if weight >= chunk { chunks.push(&idx[from..=i]); from = i + 1; weight = 0; }
    }
    if from < cases.len() { chunks.push(&idx[from..]); }
    parallel(&chunks, |ids| {
        if ctx.enough() { return; }
        let mut arenas: BTreeMap<usize, G> = BTreeMap::new();
        let mut units = vec![];
        for &i in ids.iter() {
            let (g, _) = cases[i].arena();
            units.push(cases[i].unit(i, &g));
            arenas.insert(i, g);
        }
        // the inputs the chunk does not use are left out of its program
        let sets: BTreeSet<usize> = ids.iter().map(|i| cases[*i].set).collect();
        let ins: Vec<Vec<String>> = inputs.iter().enumerate().map(|(i, v)| if sets.contains(&i) { v.clone() } else { vec![] }).collect();
        let hd = header(&ins).replace("//EXTRA", o.extra).replace("//MORE_TUPLES", &more);
        let mut bad: BTreeSet<usize> = BTreeSet::new();
        let mut n = Count::default();
        let mut traces = 0u64;
        loop {
            let live: Vec<Unit> = units.iter().filter(|u| !bad.contains(&u.id)).cloned().collect();
            if live.is_empty() { break; }
            let c = ctx.compile(&hd, &live, MAIN, &[], true);
            for (id, why) in &c.failed {
                bad.insert(*id);
                let what = match why { CompileFail::Diags(v) => v.join(" | "), CompileFail::Crash(s) => s.clone() };
                ctx.violation(&cases[*id].source(&arenas[id]), format!("this grammar must compile: {}", what), units.iter().find(|u| u.id == *id).unwrap().code.clone());
            }
            let exe = match c.exe { Some(e) => e, None => break };
            let (out, err, end) = ctx.run(&exe, &[ctx.case_cpu().to_string()], ctx.case_cpu());
            let mut cur = usize::MAX;
            let mut k = 0;
            let mut done = false;
            let mut reported = false;
            for l in out.split('\n') {
                if let Some(x) = l.strip_prefix('@') {
                    if x == "end" { done = true; break; }
                    cur = x.parse().unwrap_or(usize::MAX);
                    k = 0;
                    reported = false;
                    continue;
                }
                if cur == usize::MAX || !arenas.contains_key(&cur) { continue; }
                let case = &cases[cur];
                let ins = &inputs[case.set];
                if k >= ins.len() { continue; }
                // cut when the program dies
                if l.is_empty() { continue; }
                let input = &ins[k];
                k += 1;
                if reported { continue; }
                let g = &arenas[&cur];
                let d = if l.starts_with('!') { Some(format!("panics: {}", l)) } else {
                    let col: Vec<&str> = l.split('\t').collect();
                    if col.len() != 11 && o.cmp.is_none() { continue; }
                    match o.cmp { Some(f) => f(case, g, input, &col, &mut n), None => against_model(case, g, input, &col, &mut n) }
                };
                traces += 1;
                if let Some(d) = d {
                    reported = true;
                    ctx.violation(&format!("{} <- \"{}\"", case.source(g), esc(input)), d, format!("// input: \"{}\"\n{}", esc(input), units.iter().find(|u| u.id == cur).unwrap().code));
                }
            }
            if done { break; }
            if cur == usize::MAX { fatal(&format!("a probe died before its first grammar: {}", err)); }
            let why = match end { End::Exit(c) => format!("exits with {}", c), End::Signal(24) | End::Timeout => "does not terminate".into(), End::Signal(s) => format!("is killed by signal {}", s) };
            ctx.violation(&format!("{} !", cases[cur].source(&arenas[&cur])), format!("the generated code {} ({})", why, err.lines().next().unwrap_or("")), units.iter().find(|u| u.id == cur).unwrap().code.clone());
            bad.insert(cur);
            if ctx.enough() { break; }
        }
        ctx.add(n.states, n.trans, traces);
        ctx.grammars.fetch_add((ids.len() - bad.len()) as u64, std::sync::atomic::Ordering::Relaxed);
    });
    let step = (cases.len() / 5).max(1);
    for c in cases.iter().step_by(step) { ctx.sample(format!("{} on {} inputs", c.source(&c.arena().0), inputs[c.set].len())); }
}

/// What Oak says of a grammar, from its expansion alone.
#[derive(Clone, Debug, PartialEq)]
pub enum Verdict { Accepted, Rejected(Vec<String>), Crash(String) }

impl Verdict {
    pub fn accepted(&self) -> bool { *self == Verdict::Accepted }
    pub fn text(&self) -> String { match self { Verdict::Accepted => "accepted".into(), Verdict::Rejected(v) => format!("rejected: {}", v.join(" | ")), Verdict::Crash(s) => format!("crash: {}", s) } }
}

pub struct Judged {
    pub v: Verdict,
    pub warn: Vec<String>,
    /// where the warnings point in the text
    pub wspans: Vec<Option<(usize, usize)>>,
    pub located: bool,
    pub spans: Vec<(usize, usize)>,
    /// where the errors point in the text
    pub espans: Vec<Option<(usize, usize)>>,
}

impl Judged {
    /// The first diagnostic points at the body of the only rule.
    pub fn whole(&self, text: &str) -> bool { self.spans.first().map_or(false, |(lo, hi)| *lo <= text.find('=').unwrap_or(0) + 2 && *hi >= text.len()) }
}

/// Expands the grammars (texts of the inside of oak!), without compiling the result.
pub fn verdicts(ctx: &Ctx, texts: &[String]) -> Vec<Judged> {
    use std::sync::Mutex;
    let res: Mutex<Vec<Option<Judged>>> = Mutex::new((0..texts.len()).map(|_| None).collect());
    let chunk = ((texts.len() + 15) / 16).clamp(20, 1000);
    let idx: Vec<usize> = (0..texts.len()).collect();
    let chunks: Vec<&[usize]> = idx.chunks(chunk).collect();
    parallel(&chunks, |ids| judge(ctx, texts, ids, &res));
    res.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}

fn judge(ctx: &Ctx, texts: &[String], ids: &[usize], res: &std::sync::Mutex<Vec<Option<Judged>>>) {
    // Expansion goes on after a failing macro, and the sentinel makes the compiler stop after expansion.
    let units: Vec<(usize, String)> = ids.iter().map(|i| (*i, format!("mod g{} {{ use super::pre::*; oak::oak! {{ {} }} }}", i, texts[*i]))).collect();
    let (diags, end, err) = ctx.expand(&units);
    let crashed = match end { End::Exit(1) => false, _ => true };
    if crashed {
        if ids.len() == 1 {
            if let End::Timeout = end { ctx.hung(&texts[ids[0]]); }
            let what = match end { End::Timeout => "the compiler does not terminate".to_string(), End::Signal(s) => format!("the compiler is killed by signal {}", s), End::Exit(c) => format!("the compiler exits with {}", c) };
            res.lock().unwrap()[ids[0]] = Some(Judged { v: Verdict::Crash(format!("{} {}", what, err)), warn: vec![], wspans: vec![], located: false, spans: vec![], espans: vec![] });
            return;
        }
        let m = ids.len() / 2;
        judge(ctx, texts, &ids[..m], res);
        judge(ctx, texts, &ids[m..], res);
        return;
    }
    let mut by: BTreeMap<usize, Vec<&Diag>> = BTreeMap::new();
    for (o, d) in &diags { by.entry(*o).or_default().push(d); }
    let mut r = res.lock().unwrap();
    for (i, code) in &units {
        let mut errs = vec![];
        let mut warn = vec![];
        let mut wspans = vec![];
        let mut crash = None;
        let mut located = false;
        let mut spans = vec![];
        let mut espans = vec![];
        let body = code.find("oak! {").unwrap() + 7;
        for d in by.get(i).map(|x| &x[..]).unwrap_or(&[]) {
            match &d.level[..] {
                "warning" => { wspans.push(d.span.map(|(lo, hi)| (lo.saturating_sub(body + 1), hi.saturating_sub(body + 1)))); let mut m = d.msg.clone(); for h in &d.help { m.push_str(" ## "); m.push_str(h) } warn.push(m) }
                "error" => {
                    if d.msg.contains("proc macro panicked") {
                        let h = d.help.join(" ");
                        if h.contains("aborting due to previous error") { errs.push("(aborted)".into()); espans.push(None) } else { crash = Some(format!("{} {}", d.msg, h)) }
                    } else {
                        if let Some((lo, hi)) = d.span { if lo > body && hi < code.len() && (lo, hi) != (1, 1) { located = true; spans.push((lo - body, hi.saturating_sub(body))); } }
                        espans.push(d.span.and_then(|(lo, hi)| if lo > body && hi < code.len() && (lo, hi) != (1, 1) { Some((lo - body - 1, hi - body - 1)) } else { None }));
                        errs.push(d.msg.clone())
                    }
                }
                _ => (),
            }
        }
        let v = match crash { Some(c) => Verdict::Crash(c), None if errs.is_empty() => Verdict::Accepted, None => Verdict::Rejected(errs) };
        r[*i] = Some(Judged { v, warn, wspans, located, spans, espans });
    }
}

/// Compiles a program of /verif/probes and runs it in shards, which enumerate and compare by themselves.
pub fn run_probe(ctx: &Ctx, name: &str, src: &str, shards: usize) {
    let full = format!("{}\n{}", include_str!("../../probes/kit.rs"), src);
    let p = ctx.work.join(format!("{}.rs", name));
    let exe = ctx.work.join(format!("{}.exe", name));
    std::fs::write(&p, &full).unwrap();
    let (ok, err) = ctx.compile_file(&p, &exe, &["-Copt-level=1", "-Cdebug-assertions=on"]);
    if !ok { ctx.violation(&format!("{} does not compile", name), format!("a program using the documented interface of the runtime does not compile: {}", err), full); return; }
    let v: Vec<usize> = (0..shards).collect();
    parallel(&v, |i| {
        let (out, err, end) = ctx.run(&exe, &[i.to_string(), shards.to_string(), if ctx.thorough { "1".into() } else { "0".into() }], if ctx.thorough { 1500 } else { 120 });
        let mut last = String::new();
        let mut done = false;
        for l in out.lines() {
            let c: Vec<&str> = l.split('\t').collect();
            match c[0] {
                "V" if c.len() > 2 => ctx.violation(c[1], c[2].to_string(), format!("// {} {}\n{}", c[1], c[2], full)),
                "N" if c.len() > 2 => { let n: u64 = c[2].parse().unwrap_or(0); match c[1] { "states" => ctx.add(n, 0, 0), "transitions" => ctx.add(0, n, 0), "traces" => ctx.add(0, 0, n), k => ctx.note_add(k, n) } }
                "S" if c.len() > 1 => ctx.sample(c[1..].join(" ")),
                "P" => last = c[1..].join(" "),
                "END" => done = true,
                _ => (),
            }
        }
        if !done {
            let why = match end { End::Exit(c) => format!("exits with {}", c), End::Signal(24) | End::Timeout => "does not terminate".into(), End::Signal(s) => format!("is killed by signal {}", s) };
            ctx.violation(&format!("{} after {}", name, last), format!("the program {} ({})", why, err.lines().next().unwrap_or("")), full.clone());
        }
    });
}
