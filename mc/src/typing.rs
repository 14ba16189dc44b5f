//! The reference typing, recursive rules included: what Oak must say of the types of a grammar.
use crate::model::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
enum TR { K(T), Rec(BTreeSet<usize>, u8) }
/// Kind of a recursion: through units only, several times in a sequence (typed only if it is unit), through a constructor.
const UNIT: u8 = 0;
const PRODUCT: u8 = 1;
const POLY: u8 = 2;

#[derive(Clone, Debug, Default)]
pub struct Verd {
    pub errs: BTreeSet<TyErr>,
    /// rules of which the type would contain itself
    pub poly: BTreeSet<usize>,
    /// not documented
    pub gray: bool,
}
impl Verd { pub fn ok(&self) -> bool { self.errs.is_empty() } }

struct Inf<'g> { g: &'g G, poly: BTreeSet<usize>, rec: BTreeSet<usize> }

impl<'g> Inf<'g> {
    fn rule(&mut self, r: usize, path: &mut Vec<usize>) -> Result<TR, TyErr> {
        if path.contains(&r) { return Ok(TR::Rec(std::iter::once(r).collect(), UNIT)); }
        path.push(r);
        let t = self.ty(self.g.roots[r], path);
        path.pop();
        Ok(match t? {
            TR::Rec(mut s, poly) => {
                if s.remove(&r) { self.rec.insert(r); if poly == POLY { self.poly.insert(r); } }
                if s.is_empty() { TR::K(T::Inv) } else { TR::Rec(s, poly) }
            }
            k => k,
        })
    }
    fn un(&mut self, c: usize, path: &mut Vec<usize>, f: fn(Box<T>) -> T) -> Result<TR, TyErr> {
        Ok(match self.ty(c, path)? { TR::Rec(s, _) => TR::Rec(s, POLY), TR::K(T::Inv) => TR::K(T::Inv), TR::K(t) => TR::K(f(Box::new(t))) })
    }
    fn tup(&mut self, v: Vec<TR>) -> TR {
        let mut set = BTreeSet::new();
        let mut poly = UNIT;
        let mut any = 0;
        for t in &v { match t { TR::Rec(s, p) => { any += 1; set.extend(s.iter().cloned()); poly = poly.max(*p) }, TR::K(t) => if !t.unit_kind() { poly = POLY } } }
        if any > 1 { poly = poly.max(PRODUCT); }
        if any > 0 { return TR::Rec(set, poly); }
        TR::K(tuple(v.into_iter().map(|t| match t { TR::K(t) => t, _ => unreachable!() }).collect()))
    }
    fn ty(&mut self, n: usize, path: &mut Vec<usize>) -> Result<TR, TyErr> {
        let g = self.g;
        Ok(match &g.nodes[n].k {
            K::Lit(..) | K::Not(_) | K::And(_) => TR::K(T::Inv),
            K::Cls(..) | K::Any => TR::K(T::Char),
            K::Nt(r) => {
                let t = if g.nodes[n].ext { self.rule(*r, &mut vec![])? } else { self.rule(*r, path)? };
                match t { TR::K(t) if g.nodes[n].ext => TR::K(T::Extern(t.rust())), t => t }
            }
            K::Opt(c) => self.un(*c, path, T::Opt)?,
            K::Star(c) | K::Plus(c) => self.un(*c, path, T::List)?,
            K::Asc(_, t) => TR::K(asc_ty(t)),
            K::Act(_, a) => { let t = g.act_ret(a); TR::K(if a.known { if g.unit_action(a) { T::Unit } else { T::Rust(t) } } else { T::Extern(t) }) }
            K::Rng(_) => TR::K(T::Rust(RANGE_TY.into())),
            K::Spn(c) => { let t = self.ty(*c, path)?; self.tup(vec![TR::K(T::Rust(SPAN_TY.into())), t]) }
            K::Seq(v) => { let mut ts = vec![]; for c in v { ts.push(self.ty(*c, path)?); } self.tup(ts) }
            K::Cho(v) => {
                let mut set = BTreeSet::new();
                let (mut any, mut poly) = (false, UNIT);
                let mut ts: Vec<T> = vec![];
                for c in v { match self.ty(*c, path)? {
                    TR::Rec(s, p) => { any = true; poly = poly.max(p); set.extend(s) }
                    TR::K(t) => if !ts.iter().any(|u| u.same(&t)) { ts.push(t) },
                } }
                if any && ts.iter().all(|t| *t == T::Inv) { return Ok(TR::Rec(set, poly)); }
                if poly == POLY || poly == PRODUCT && ts.iter().any(|t| !t.unit_kind()) { return Err(TyErr::Mismatch); }
                return sum(ts).map(TR::K);
            }
        })
    }
}

/// Types every node and every rule.
pub fn infer(g: &mut G) -> Verd {
    let mut v = Verd::default();
    let mut fin: Vec<Option<T>> = vec![];
    {
        let mut i = Inf { g, poly: BTreeSet::new(), rec: BTreeSet::new() };
        for r in 0..g.roots.len() {
            fin.push(match i.rule(r, &mut vec![]) { Ok(TR::K(t)) => Some(t), Ok(TR::Rec(..)) => Some(T::Inv), Err(e) => { v.errs.insert(e); None } });
        }
        v.poly = i.poly;
    }
    for r in 0..g.roots.len() {
        if let Some(t) = &fin[r] { g.rule_ty[r] = Some(t.clone()); }
        if !g.external[r] { if let Some(t) = &fin[r] { if t.has_extern() { v.errs.insert(TyErr::Unknown); } } }
    }
    let _ = g.type_all();
    // a rule typed through an unit cycle must agree with its own body
    for r in 0..g.roots.len() { if !g.external[r] { surface(g, g.roots[r], false, &mut v); } }
    for r in 0..g.roots.len() {
        if g.external[r] || fin[r].is_none() { continue; }
        let t = fin[r].clone().unwrap();
        if t.unit_kind() {
            if v.poly.contains(&r) && !g.tree(g.roots[r]).iter().all(|n| quiet(g, *n)) { v.gray = true; }
            continue;
        }
        walk(g, g.roots[r], &mut v);
    }
    v
}

fn quiet(g: &G, n: usize) -> bool {
    if let Some(Err(_)) = g.nodes[n].ty { return false; }
    match &g.nodes[n].k { K::Act(_, a) => !g.unit_action(a), K::Asc(c, t) => asc_ty(t).unit_kind() || !contradicts(g, *c, t, &mut false), _ => true }
}

/// An action which gives its type to a rule must not return unit.
fn surface(g: &G, n: usize, range: bool, v: &mut Verd) {
    match &g.nodes[n].k {
        K::Act(_, a) => if g.unit_action(a) { if range { v.gray = true; } else { v.errs.insert(TyErr::UnitAction); } },
        K::Asc(..) | K::Not(_) | K::And(_) => (),
        K::Rng(c) => surface(g, *c, true, v),
        _ => for c in g.kids(n) { surface(g, c, range, v); },
    }
}

/// Errors of the expressions of which the value is used.
fn walk(g: &G, n: usize, v: &mut Verd) {
    match &g.nodes[n].ty { Some(Err(e)) => { v.errs.insert(*e); } Some(Ok(t)) if t.unit_kind() && !matches!(&g.nodes[n].k, K::Act(..)) => return, _ => () }
    match &g.nodes[n].k {
        K::Act(_, a) if g.unit_action(a) => { v.errs.insert(TyErr::UnitAction); return; }
        K::Asc(c, t) if !asc_ty(t).unit_kind() => { if contradicts(g, *c, t, &mut v.gray) { v.errs.insert(TyErr::Contradict); } }
        _ => (),
    }
    // the content of a range is never used
    if let K::Rng(_) = &g.nodes[n].k { return; }
    for c in g.kids(n) { walk(g, c, v); }
}

/// Does the ascription T of n contradict the type Oak knows?
fn contradicts(g: &G, n: usize, t: &str, gray: &mut bool) -> bool {
    match &g.nodes[n].ty {
        Some(Ok(T::Extern(_))) | Some(Ok(T::Rust(_))) => {
            // the ascription goes down to what gives its value to the expression
            match &g.nodes[n].k {
                K::Seq(v) => v.iter().any(|c| !g.t(*c).unit_kind() && contradicts(g, *c, t, gray)),
                K::Cho(v) => v.iter().any(|c| contradicts(g, *c, t, gray)),
                K::Asc(_, u) => u == "()" || u == "(^)",
                _ => false,
            }
        }
        Some(Ok(T::Tup(_))) => { if g.t(n).rust() == t { *gray = true; } true }
        Some(Ok(u)) if u.has_extern() => { *gray = true; true }
        Some(Ok(u)) => u.unit_kind() || u.rust().replace(" ", "") != t.replace(" ", ""),
        _ => false,
    }
}
