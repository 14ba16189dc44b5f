//! Enumeration of families of grammars and of inputs: every member within the stated bounds.
use crate::model::*;

#[derive(Clone)]
pub struct Space {
    pub atoms: Vec<E>,
    pub un: &'static str, // subset of "?*+&!"
    pub seq: usize,       // greatest arity, 0 for none
    pub cho: usize,
    /// drop the sub-expressions that are ill-formed on their own
    pub prune: bool,
    /// other unary constructors
    pub more: Vec<fn(E) -> E>,
}

pub fn std_atoms() -> Vec<E> { vec![lit("a"), lit("b"), cls("a"), cls("b"), E::Any] }

impl Space {
    pub fn std() -> Space { Space { atoms: std_atoms(), un: "?*+&!", seq: 3, cho: 3, prune: true, more: vec![] } }
    pub fn with(atoms: Vec<E>) -> Space { Space { atoms, ..Space::std() } }
    /// levels[n]: the expressions of size n
    pub fn levels(&self, max: usize) -> Vec<Vec<E>> {
        let mut l: Vec<Vec<E>> = vec![vec![], self.atoms.clone()];
        for n in 2..=max {
            let mut v: Vec<E> = vec![];
            for e in &l[n - 1] {
                for c in self.un.chars() {
                    v.push(match c { '?' => opt(e.clone()), '*' => star(e.clone()), '+' => plus(e.clone()), '&' => and(e.clone()), _ => not(e.clone()) });
                }
                for f in &self.more { v.push(f(e.clone())); }
            }
            for arity in 2..=self.seq.max(self.cho) {
                for parts in splits(n - 1, arity) {
                    for t in product(&parts.iter().map(|p| &l[*p]).collect::<Vec<_>>()) {
                        if arity <= self.seq { v.push(seq(t.clone())); }
                        if arity <= self.cho { v.push(cho(t)); }
                    }
                }
            }
            if self.prune { v.retain(|e| locally_wf(e)); }
            l.push(v);
        }
        l
    }
    pub fn upto(&self, max: usize) -> Vec<E> { self.levels(max).into_iter().flatten().collect() }
}

/// Only for the expressions whose rules are all unknown: rules count as terminals.
pub fn locally_wf(e: &E) -> bool {
    fn fix(e: &E) -> E { match e { E::Nt(_) | E::Ext(..) => E::Any, e => e.map_children(&mut |x| fix(x)) } }
    let g = G::new(&gram1(fix(e)));
    well_formed(&g).is_ok()
}

/// The ways of writing n as an ordered sum of k positive numbers.
pub fn splits(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 1 { return if n >= 1 { vec![vec![n]] } else { vec![] }; }
    let mut r = vec![];
    for i in 1..n { for mut t in splits(n - i, k - 1) { t.insert(0, i); r.push(t); } }
    r
}

pub fn product<T: Clone>(v: &[&Vec<T>]) -> Vec<Vec<T>> {
    let mut r: Vec<Vec<T>> = vec![vec![]];
    for l in v {
        let mut n = Vec::with_capacity(r.len() * l.len());
        for p in &r { for x in l.iter() { let mut q = p.clone(); q.push(x.clone()); n.push(q); } }
        r = n;
    }
    r
}

/// One representative of each grammar up to the exchange of the letters a and b in its texts.
pub fn canon_ab(e: &E) -> bool {
    fn first(e: &E) -> Option<char> {
        match e {
            E::Lit(s) | E::Cls(s) => s.chars().find(|c| *c == 'a' || *c == 'b'),
            e => e.children().into_iter().find_map(first),
        }
    }
    first(e) != Some('b')
}

/// All the words over an alphabet of length at most n.
pub fn words(alpha: &[&str], n: usize) -> Vec<String> {
    let mut r = vec![String::new()];
    let mut last = r.clone();
    for _ in 0..n {
        let mut next = vec![];
        for w in &last { for a in alpha { next.push(format!("{}{}", w, a)); } }
        r.extend(next.iter().cloned());
        last = next;
    }
    r
}

/// {a,b,é}* up to 3 and {a,b}* up to n
pub fn std_inputs(n: usize) -> Vec<String> {
    let mut v = words(&["a", "b", "é"], 3);
    v.extend(words(&["a", "b"], n).into_iter().filter(|w| w.len() > 3));
    v
}

/// Contexts of one hole, one level.
pub fn contexts(side: &[E]) -> Vec<Box<dyn Fn(E) -> E + Sync + Send>> {
    let mut v: Vec<Box<dyn Fn(E) -> E + Sync + Send>> = vec![
        Box::new(opt), Box::new(star), Box::new(plus), Box::new(not), Box::new(and),
    ];
    for s in side {
        let s1 = s.clone(); v.push(Box::new(move |e| seq(vec![e, s1.clone()])));
        let s1 = s.clone(); v.push(Box::new(move |e| seq(vec![s1.clone(), e])));
        let s1 = s.clone(); v.push(Box::new(move |e| cho(vec![e, s1.clone()])));
        let s1 = s.clone(); v.push(Box::new(move |e| cho(vec![s1.clone(), e])));
    }
    v
}

pub fn uses(e: &E, n: usize) -> bool { matches!(e, E::Nt(m) if *m == n) || e.children().into_iter().any(|c| uses(c, n)) }

/// Wraps every sub-expression chosen by the bits of `sel` (in prefix order) with f.
pub fn wrap(e: &E, sel: u32, f: &dyn Fn(E, usize) -> E) -> E {
    fn go(e: &E, sel: u32, f: &dyn Fn(E, usize) -> E, k: &mut usize) -> E {
        let me = *k;
        *k += 1;
        let r = e.map_children(&mut |c| go(c, sel, f, k));
        if sel >> me & 1 == 1 { f(r, me) } else { r }
    }
    let mut k = 0;
    go(e, sel, f, &mut k)
}

// ---------------------------------------------------------------------------------------------
// Families of grammars

/// Names the actions "?" act0, act1... in prefix order, and "?num" num0...
pub fn number_actions(g: &mut Gram) {
    fn go(e: &E, k: &mut usize) -> E {
        match e {
            E::Act(c, a) if a.name.starts_with('?') => {
                let n = *k;
                *k += 1;
                let c = go(c, k);
                let kind = match &a.name[1..] { "" => "act", x => x };
                E::Act(Box::new(c), Action { name: if a.known { format!("{}{}", kind, n) } else { format!("ea::{}{}", kind, n) }, ..a.clone() })
            }
            e => e.map_children(&mut |c| go(c, k)),
        }
    }
    let mut k = 0;
    for r in g.rules.iter_mut() { r.e = go(&r.e, &mut k); }
}

fn f_act(e: E) -> E { act(e, "?") }
fn f_box(e: E) -> E { act_box(e, "?") }
fn f_unit(e: E) -> E { asc(e, "()") }
fn f_inv(e: E) -> E { asc(e, "(^)") }

/// Expressions over two letters, one rule.
pub fn fam_core(max: usize) -> Vec<Gram> {
    Space::std().upto(max).into_iter().filter(canon_ab).map(gram1).collect()
}

/// Longer literals and classes, the empty literal.
pub fn fam_lits(max: usize) -> Vec<Gram> {
    Space { un: "?*!", ..Space::with(vec![lit("ab"), lit("aba"), lit("a"), cls("ab"), lit("é"), lit("")]) }.upto(max).into_iter().map(gram1).collect()
}

/// Two or three levels of contexts around small expressions.
pub fn fam_deep(thorough: bool) -> Vec<Gram> {
    let side = vec![cls("b"), lit("ab"), E::Any];
    let cx = contexts(&side);
    let inner = if thorough { Space { seq: 2, cho: 2, ..Space::with(vec![lit("a"), cls("b"), E::Any]) }.upto(3) }
        else { Space { seq: 2, cho: 2, ..Space::with(vec![lit("a"), cls("b")]) }.upto(3) };
    let inner: Vec<E> = inner.into_iter().filter(|e| e.size() >= 2).collect();
    let mut v = vec![];
    for c in &cx { for d in &cx { for e in &inner { let x = c(d(e.clone())); if locally_wf(&x) { v.push(gram1(x)) } } } }
    v
}

/// Two rules: the first one calls the second.
pub fn fam_two(max: usize) -> Vec<Gram> {
    let subs = vec![lit("a"), cls("a"), opt(cls("a")), seq(vec![cls("a"), cls("b")]), cho(vec![cls("a"), cls("b")]), star(cls("a")), plus(cls("b")), seq(vec![not(lit("b")), E::Any]), seq(vec![lit("a"), lit("b")])];
    let bodies: Vec<E> = Space { prune: true, ..Space::with(vec![E::Nt(1), lit("a"), cls("b")]) }.upto(max).into_iter().filter(|e| uses(e, 1)).collect();
    let mut v = vec![];
    for b in &bodies { for s in &subs { v.push(gram(vec![("r", b.clone()), ("s", s.clone())])) } }
    v
}

/// Recursive rules over literals: everything has the type (^).
pub fn fam_rec(max: usize) -> Vec<Gram> {
    let mut v = vec![];
    for e in Space::with(vec![E::Nt(0), lit("a"), lit("b")]).upto(max) { if uses(&e, 0) && canon_ab(&e) { v.push(gram1(e)) } }
    let b1: Vec<E> = Space { un: "?*!", seq: 3, cho: 2, ..Space::with(vec![E::Nt(1), lit("a")]) }.upto(max - 1).into_iter().filter(|e| uses(e, 1)).collect();
    let b2: Vec<E> = Space { un: "?+&", seq: 3, cho: 2, ..Space::with(vec![E::Nt(0), lit("b")]) }.upto(max - 1).into_iter().filter(|e| uses(e, 0)).collect();
    for a in &b1 { for b in &b2 { if a.size() + b.size() <= max + 3 { v.push(gram(vec![("r", a.clone()), ("s", b.clone())])) } } }
    v
}

/// Expressions with actions, ascriptions, spans and ranges.
pub fn fam_typed(max: usize) -> Vec<Gram> {
    let sp = Space { un: "?*&", seq: 2, cho: 2, more: vec![f_act, f_box, f_unit, f_inv, spn, rng], ..Space::with(vec![lit("a"), cls("a"), cls("b")]) };
    sp.upto(max).into_iter().filter(canon_ab).map(|e| { let mut g = gram1(e); number_actions(&mut g); g }).collect()
}

/// Every way of putting one of `fs` on at most `k` nodes of each of the expressions.
pub fn fam_wrap(exprs: &[E], k: u32, fs: &[fn(E) -> E]) -> Vec<Gram> {
    let mut v = vec![];
    for e in exprs {
        let n = e.size() as u32;
        for sel in 1u32..(1 << n) {
            if sel.count_ones() > k { continue; }
            let bits: Vec<usize> = (0..n as usize).filter(|i| sel >> i & 1 == 1).collect();
            let mut choice = vec![0usize; bits.len()];
            loop {
                let x = wrap(e, sel, &|c, me| { let j = bits.iter().position(|b| *b == me).unwrap(); fs[choice[j]](c) });
                let mut g = gram1(x);
                number_actions(&mut g);
                v.push(g);
                let mut i = 0;
                while i < choice.len() { choice[i] += 1; if choice[i] < fs.len() { break; } choice[i] = 0; i += 1; }
                if i == choice.len() { break; }
            }
        }
    }
    v
}

pub const W_ACT: &[fn(E) -> E] = &[f_act];
pub const W_ACTS: &[fn(E) -> E] = &[f_act, f_box];
pub const W_SPANS: &[fn(E) -> E] = &[spn, rng];
pub const W_UNIT: &[fn(E) -> E] = &[f_unit, f_inv];
pub const W_ALL: &[fn(E) -> E] = &[f_act, f_unit, f_inv, spn, rng];

pub fn dedup(v: Vec<Gram>) -> Vec<Gram> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|g| seen.insert(g.render())).collect()
}
