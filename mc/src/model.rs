//! Grammars, their concrete syntax, their documented types and their PEG semantics.
//! This is the reference model: it is written from the documentation of Oak and from the
//! definition of PEGs, it shares no code with /repo.
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Write;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum E {
    Lit(String),
    Cls(String),
    Any,
    /// call of the rule number n
    Nt(usize),
    /// external call of the rule number n of the grammar, which is not rendered, through a path
    Ext(usize, String),
    Seq(Vec<E>),
    Cho(Vec<E>),
    Opt(Box<E>),
    Star(Box<E>),
    Plus(Box<E>),
    Not(Box<E>),
    And(Box<E>),
    Act(Box<E>, Action),
    Asc(Box<E>, String),
    Spn(Box<E>),
    Rng(Box<E>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Action {
    pub name: String,
    pub boxed: bool,
    /// false: Oak does not see the declaration of the function (external path)
    pub known: bool,
}

pub fn lit(s: &str) -> E { E::Lit(s.into()) }
pub fn cls(s: &str) -> E { E::Cls(s.into()) }
pub fn seq(v: Vec<E>) -> E { E::Seq(v) }
pub fn cho(v: Vec<E>) -> E { E::Cho(v) }
pub fn opt(e: E) -> E { E::Opt(Box::new(e)) }
pub fn star(e: E) -> E { E::Star(Box::new(e)) }
pub fn plus(e: E) -> E { E::Plus(Box::new(e)) }
pub fn not(e: E) -> E { E::Not(Box::new(e)) }
pub fn and(e: E) -> E { E::And(Box::new(e)) }
pub fn asc(e: E, t: &str) -> E { E::Asc(Box::new(e), t.into()) }
pub fn spn(e: E) -> E { E::Spn(Box::new(e)) }
pub fn rng(e: E) -> E { E::Rng(Box::new(e)) }
pub fn act(e: E, name: &str) -> E {
    E::Act(Box::new(e), Action { name: name.into(), boxed: false, known: true })
}
pub fn act_box(e: E, name: &str) -> E {
    E::Act(Box::new(e), Action { name: name.into(), boxed: true, known: true })
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Gram {
    pub rules: Vec<Rule>,
    /// text of Rust items added to the grammar
    pub items: Vec<String>,
    /// parenthesise everything
    pub full_parens: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Rule {
    pub name: String,
    pub asc: Option<String>,
    pub e: E,
    /// not rendered: it is declared in another module (see E::Ext)
    pub external: bool,
}

pub fn rule(name: &str, e: E) -> Rule { Rule { name: name.into(), asc: None, e, external: false } }
pub fn gram1(e: E) -> Gram { Gram { rules: vec![rule("r", e)], ..Default::default() } }
pub fn gram(v: Vec<(&str, E)>) -> Gram {
    Gram { rules: v.into_iter().map(|(n, e)| rule(n, e)).collect(), ..Default::default() }
}

impl E {
    pub fn children(&self) -> Vec<&E> {
        match self {
            E::Lit(_) | E::Cls(_) | E::Any | E::Nt(_) | E::Ext(..) => vec![],
            E::Seq(v) | E::Cho(v) => v.iter().collect(),
            E::Opt(e) | E::Star(e) | E::Plus(e) | E::Not(e) | E::And(e) | E::Act(e, _) | E::Asc(e, _) | E::Spn(e) | E::Rng(e) => vec![e],
        }
    }
    pub fn map_children(&self, f: &mut dyn FnMut(&E) -> E) -> E {
        match self {
            E::Seq(v) => E::Seq(v.iter().map(|e| f(e)).collect()),
            E::Cho(v) => E::Cho(v.iter().map(|e| f(e)).collect()),
            E::Opt(e) => opt(f(e)),
            E::Star(e) => star(f(e)),
            E::Plus(e) => plus(f(e)),
            E::Not(e) => not(f(e)),
            E::And(e) => and(f(e)),
            E::Act(e, a) => E::Act(Box::new(f(e)), a.clone()),
            E::Asc(e, t) => E::Asc(Box::new(f(e)), t.clone()),
            E::Spn(e) => spn(f(e)),
            E::Rng(e) => rng(f(e)),
            e => e.clone(),
        }
    }
    pub fn size(&self) -> usize { 1 + self.children().iter().map(|e| e.size()).sum::<usize>() }
    /// Binding level of the concrete syntax: the higher, the tighter.
    fn level(&self) -> u8 {
        match self {
            E::Cho(_) => 0,
            E::Act(..) => 1,
            E::Spn(_) | E::Rng(_) => 2,
            E::Seq(_) => 3,
            E::Asc(..) => 4,
            E::Not(_) | E::And(_) => 5,
            E::Opt(_) | E::Star(_) | E::Plus(_) => 6,
            _ => 7,
        }
    }
    pub fn render(&self, names: &[String], full: bool) -> String {
        let mut s = String::new();
        self.rend(names, full, 0, &mut s, &mut vec![]);
        types(&s)
    }
    /// Where each sub-expression is in the text, without its own parentheses.
    pub fn places<'e>(&'e self, names: &[String], full: bool) -> Vec<(usize, usize, &'e E)> {
        let mut v = vec![];
        self.rend(names, full, 0, &mut String::new(), &mut v);
        v
    }
    fn rend<'e>(&'e self, names: &[String], full: bool, min: u8, o: &mut String, pos: &mut Vec<(usize, usize, &'e E)>) {
        let lvl = self.level();
        let paren = lvl < min || (full && lvl < 7 && min > 0);
        if paren { o.push('('); }
        let start = o.len();
        match self {
            E::Lit(s) => write!(o, "\"{}\"", esc(s)).unwrap(),
            E::Cls(s) => write!(o, "[\"{}\"]", esc(s)).unwrap(),
            E::Any => o.push('.'),
            E::Nt(n) => o.push_str(&names[*n]),
            E::Ext(_, p) => o.push_str(p),
            E::Seq(v) => for (i, e) in v.iter().enumerate() {
                if i > 0 { o.push(' '); }
                e.rend(names, full, 4, o, pos)
            },
            E::Cho(v) => for (i, e) in v.iter().enumerate() {
                if i > 0 { o.push_str(" / "); }
                e.rend(names, full, 1, o, pos)
            },
            E::Opt(e) => { e.rend(names, full, 7, o, pos); o.push('?') }
            E::Star(e) => { e.rend(names, full, 7, o, pos); o.push('*') }
            E::Plus(e) => { e.rend(names, full, 7, o, pos); o.push('+') }
            E::Not(e) => { o.push('!'); e.rend(names, full, 6, o, pos) }
            E::And(e) => { o.push('&'); e.rend(names, full, 6, o, pos) }
            E::Asc(e, t) => {
                e.rend(names, full, 5, o, pos);
                if t.starts_with('(') { write!(o, ":{}", t).unwrap() } else { write!(o, ":\u{2}{}\u{3}", t).unwrap() }
            }
            E::Spn(e) => { o.push_str(".. "); e.rend(names, full, 3, o, pos) }
            E::Rng(e) => { o.push_str("... "); e.rend(names, full, 3, o, pos) }
            E::Act(e, a) => {
                e.rend(names, full, 2, o, pos);
                write!(o, " > {}{}", if a.boxed { "box " } else { "" }, a.name).unwrap()
            }
        }
        pos.push((start, o.len(), self));
        if paren { o.push(')'); }
    }
}

/// The types are put in parentheses where what follows could be read as a part of them.
fn types(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    while let Some((a, b)) = rest.split_once('\u{2}') {
        let (t, c) = b.split_once('\u{3}').unwrap();
        o.push_str(a);
        let next = c.trim_start_matches(' ').chars().next();
        if matches!(next, None | Some(')') | Some('/') | Some('"')) { o.push_str(t) } else { o.push('('); o.push_str(t); o.push(')') }
        rest = c;
    }
    o.push_str(rest);
    o
}

pub fn esc(s: &str) -> String { s.chars().flat_map(|c| c.escape_default()).collect() }

/// AST types of the documentation.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum T {
    Inv,
    Unit,
    Char,
    Opt(Box<T>),
    List(Box<T>),
    Tup(Vec<T>),
    Rust(String),
    /// unknown to Oak; the text is the real Rust type
    Extern(String),
}

impl T {
    pub fn unit_kind(&self) -> bool { matches!(self, T::Inv | T::Unit) }
    pub fn card(&self) -> usize { match self { T::Inv | T::Unit => 0, T::Tup(v) => v.len(), _ => 1 } }
    pub fn rust(&self) -> String {
        match self {
            T::Inv | T::Unit => "()".into(),
            T::Char => "char".into(),
            T::Opt(t) => format!("Option<{}>", t.rust()),
            T::List(t) => format!("Vec<{}>", t.rust()),
            T::Tup(v) => format!("({})", v.iter().map(|t| t.rust()).collect::<Vec<_>>().join(", ")),
            T::Rust(s) | T::Extern(s) => s.clone(),
        }
    }
    pub fn comps(&self) -> Vec<T> {
        match self { T::Inv | T::Unit => vec![], T::Tup(v) => v.clone(), t => vec![t.clone()] }
    }
    pub fn has_extern(&self) -> bool {
        match self {
            T::Extern(_) => true,
            T::Opt(t) | T::List(t) => t.has_extern(),
            T::Tup(v) => v.iter().any(|t| t.has_extern()),
            _ => false,
        }
    }
    /// The equality of types Oak relies on for the branches of a choice: Rust types are left to rustc.
    pub fn same(&self, o: &T) -> bool {
        match (self, o) {
            (T::Rust(_), T::Rust(_)) | (T::Extern(_), T::Extern(_)) | (T::Inv, T::Inv) | (T::Unit, T::Unit) | (T::Char, T::Char) => true,
            (T::Opt(a), T::Opt(b)) | (T::List(a), T::List(b)) => a.same(b),
            (T::Tup(a), T::Tup(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            _ => false,
        }
    }
    /// Rust-level equality, for the branches of a choice.
    pub fn rust_same(&self, o: &T) -> bool { self.rust() == o.rust() }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum TyErr { Mismatch, Unknown, UnitAction, Rec, Contradict }

pub const SPAN_TY: &str = "Span";
pub const RANGE_TY: &str = "Range<StrStream<'a>>";

#[derive(Clone, Debug)]
pub enum K {
    Lit(Vec<char>, String),
    Cls(Vec<(char, char)>, String),
    Any,
    Nt(usize),
    Seq(Vec<usize>),
    Cho(Vec<usize>),
    Opt(usize),
    Star(usize),
    Plus(usize),
    Not(usize),
    And(usize),
    Act(usize, Action),
    Asc(usize, String),
    Spn(usize),
    Rng(usize),
}

pub struct Node { pub k: K, pub ty: Option<Result<T, TyErr>>, pub ext: bool }

/// A grammar in arena form, with its types.
pub struct G {
    pub nodes: Vec<Node>,
    pub roots: Vec<usize>,
    pub names: Vec<String>,
    pub external: Vec<bool>,
    /// real Rust return type of the actions, "V" by default
    pub action_ty: HashMap<String, String>,
    /// rule types given in advance (recursive rules)
    pub rule_ty: Vec<Option<T>>,
}

/// The denotation of a class text; Err on the texts the documentation forbids.
pub fn class_of(s: &str) -> Result<(Vec<(char, char)>, String), ()> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    if c.is_empty() { return Err(()); }
    if c[0] == '-' { v.push(('-', '-')); i = 1; }
    while i < c.len() {
        if c[i] == '-' {
            if i + 1 == c.len() { v.push(('-', '-')); i += 1; continue; }
            return Err(());
        }
        if i + 1 < c.len() && c[i + 1] == '-' {
            if i + 2 == c.len() { v.push((c[i], c[i])); v.push(('-', '-')); i += 2; continue; }
            if c[i + 2] == '-' { return Err(()); }
            v.push((c[i], c[i + 2]));
            i += 3;
        } else { v.push((c[i], c[i])); i += 1; }
    }
    let mut label = String::from("[\"");
    for (a, b) in &v {
        label.extend(a.escape_default());
        if a != b { label.push('-'); label.extend(b.escape_default()); }
    }
    label.push_str("\"]");
    Ok((v, label))
}

impl G {
    pub fn new(g: &Gram) -> G {
        let mut r = G { nodes: vec![], roots: vec![], names: g.rules.iter().map(|r| r.name.clone()).collect(),
            external: g.rules.iter().map(|r| r.external).collect(), action_ty: HashMap::new(), rule_ty: vec![None; g.rules.len()] };
        for x in &g.rules {
            let mut n = r.add(&x.e);
            if let Some(t) = &x.asc { n = r.push(K::Asc(n, t.clone()), false); }
            r.roots.push(n);
        }
        r
    }
    fn push(&mut self, k: K, ext: bool) -> usize { self.nodes.push(Node { k, ty: None, ext }); self.nodes.len() - 1 }
    fn add(&mut self, e: &E) -> usize {
        let mut ext = false;
        let k = match e {
            E::Lit(s) => K::Lit(s.chars().collect(), s.clone()),
            E::Cls(s) => { let (v, l) = class_of(s).unwrap_or((vec![], String::from("INVALID"))); K::Cls(v, l) }
            E::Any => K::Any,
            E::Nt(n) => K::Nt(*n),
            E::Ext(n, _) => { ext = true; K::Nt(*n) }
            E::Seq(v) => K::Seq(v.iter().map(|e| self.add(e)).collect()),
            E::Cho(v) => K::Cho(v.iter().map(|e| self.add(e)).collect()),
            E::Opt(e) => K::Opt(self.add(e)),
            E::Star(e) => K::Star(self.add(e)),
            E::Plus(e) => K::Plus(self.add(e)),
            E::Not(e) => K::Not(self.add(e)),
            E::And(e) => K::And(self.add(e)),
            E::Act(e, a) => K::Act(self.add(e), a.clone()),
            E::Asc(e, t) => K::Asc(self.add(e), t.clone()),
            E::Spn(e) => K::Spn(self.add(e)),
            E::Rng(e) => K::Rng(self.add(e)),
        };
        self.push(k, ext)
    }
    pub fn unit_action(&self, a: &Action) -> bool { a.known && self.ret_of(&a.name) == "()" }
    /// What a function returns: its name tells it, unless it is given.
    pub fn ret_of(&self, name: &str) -> String {
        if let Some(t) = self.action_ty.get(name) { return t.clone(); }
        let short = name.rsplit("::").next().unwrap();
        for (p, t) in [("unit", "()"), ("num", "u32"), ("chr", "char"), ("vec", "Vec<char>")] { if short.starts_with(p) { return t.into(); } }
        "V".into()
    }
    /// The nodes of an expression.
    pub fn tree(&self, n: usize) -> Vec<usize> { let mut v = vec![n]; for c in self.kids(n) { v.extend(self.tree(c)); } v }
    pub fn act_ret(&self, a: &Action) -> String {
        let t = self.ret_of(&a.name);
        if a.boxed { format!("Box<{}>", t) } else { t }
    }
    /// Types every node. Recursive rules must be given a type in `rule_ty`.
    pub fn type_all(&mut self) -> Result<(), TyErr> {
        let mut err = None;
        for r in 0..self.roots.len() {
            let t = self.ty_rule(r, &mut vec![]);
            match t {
                Ok(t) => if !self.external[r] && t.has_extern() { err.get_or_insert(TyErr::Unknown); },
                Err(e) => { err.get_or_insert(e); }
            }
        }
        // everything below: actions and ascriptions
        for n in 0..self.nodes.len() { let _ = self.ty(n, &mut vec![]); }
        match err { None => Ok(()), Some(e) => Err(e) }
    }
    pub fn ty_of_rule(&self, r: usize) -> T {
        if let Some(t) = &self.rule_ty[r] { return t.clone(); }
        self.nodes[self.roots[r]].ty.clone().unwrap().unwrap_or(T::Inv)
    }
    fn ty_rule(&mut self, r: usize, path: &mut Vec<usize>) -> Result<T, TyErr> {
        if let Some(t) = &self.rule_ty[r] { return Ok(t.clone()); }
        if path.contains(&r) { return Err(TyErr::Rec); }
        path.push(r);
        let t = self.ty(self.roots[r], path);
        path.pop();
        t
    }
    pub fn t(&self, n: usize) -> T {
        match &self.nodes[n].ty { Some(Ok(t)) => t.clone(), _ => T::Inv }
    }
    fn ty(&mut self, n: usize, path: &mut Vec<usize>) -> Result<T, TyErr> {
        if let Some(t) = &self.nodes[n].ty { return t.clone(); }
        let k = self.nodes[n].k.clone();
        let t = (|| Ok(match k {
            K::Lit(..) | K::Not(_) | K::And(_) => T::Inv,
            K::Cls(..) | K::Any => T::Char,
            K::Nt(r) => {
                let ext = self.nodes[n].ext;
                let t = self.ty_rule(r, path)?;
                if ext { T::Extern(t.rust()) } else { t }
            }
            K::Opt(c) => match self.ty(c, path)? { T::Inv => T::Inv, t => T::Opt(Box::new(t)) },
            K::Star(c) | K::Plus(c) => match self.ty(c, path)? { T::Inv => T::Inv, t => T::List(Box::new(t)) },
            K::Asc(_, t) => asc_ty(&t),
            K::Act(_, a) => { let t = self.act_ret(&a); if a.known { T::Rust(t) } else { T::Extern(t) } }
            K::Rng(_) => T::Rust(RANGE_TY.into()),
            K::Spn(c) => { let t = self.ty(c, path)?; tuple(vec![T::Rust(SPAN_TY.into()), t]) }
            K::Seq(v) => { let mut ts = vec![]; for c in v { ts.push(self.ty(c, path)?); } tuple(ts) }
            K::Cho(v) => {
                let mut ts: Vec<T> = vec![];
                for c in v { let t = self.ty(c, path)?; if !ts.iter().any(|u| u.same(&t)) { ts.push(t); } }
                return sum(ts);
            }
        }))();
        // rules under construction must not be memoized as errors
        if t != Err(TyErr::Rec) { self.nodes[n].ty = Some(t.clone()); }
        t
    }
    /// Nodes whose value is used when the rules are run as parsers.
    pub fn used(&self) -> Vec<bool> {
        let mut u = vec![false; self.nodes.len()];
        for r in 0..self.roots.len() { if !self.ty_of_rule(r).unit_kind() { self.mark_used(self.roots[r], &mut u); } }
        u
    }
    /// The branches of the choices of which the value is used have the same Rust types.
    pub fn rust_choices(&self) -> bool {
        let u = self.used();
        (0..self.nodes.len()).all(|n| match &self.nodes[n].k {
            K::Cho(v) if u[n] => v.iter().all(|c| self.t(*c).rust_same(&self.t(n))),
            _ => true,
        })
    }
    fn mark_used(&self, n: usize, u: &mut Vec<bool>) {
        if self.t(n).unit_kind() { return; }
        u[n] = true;
        // what a range delimits is not built
        if let K::Rng(_) = self.nodes[n].k { return; }
        for c in self.kids(n) { self.mark_used(c, u); }
    }
    pub fn kids(&self, n: usize) -> Vec<usize> {
        match &self.nodes[n].k {
            K::Lit(..) | K::Cls(..) | K::Any | K::Nt(_) => vec![],
            K::Seq(v) | K::Cho(v) => v.clone(),
            K::Opt(c) | K::Star(c) | K::Plus(c) | K::Not(c) | K::And(c) | K::Act(c, _) | K::Asc(c, _) | K::Spn(c) => vec![*c],
            K::Rng(c) => vec![*c],
        }
    }
    /// Declarations of the action functions, with the parameter types the documentation gives them.
    pub fn action_decls(&self) -> Vec<(String, String, bool)> {
        let mut v: Vec<(String, String, bool)> = vec![];
        for n in &self.nodes {
            if let K::Act(c, a) = &n.k {
                let short = a.name.rsplit("::").next().unwrap().to_string();
                if v.iter().any(|x| x.0 == short) || !a.known && !a.name.starts_with("ea::") { continue; }
                let comps = self.t(*c).comps();
                let lt = comps.iter().any(|t| t.rust().contains("'a"));
                let ps = comps.iter().enumerate().map(|(i, t)| format!("p{}: {}", i, t.rust())).collect::<Vec<_>>().join(", ");
                let args = (0..comps.len()).map(|i| format!("&p{}", i)).collect::<Vec<_>>().join(", ");
                v.push((short.clone(), {
                    let ret = self.ret_of(&a.name);
                    let v = format!("rt_act(\"{}\", &[{}])", short, args);
                    let body = match &ret[..] { "V" => v, "()" => format!("{}; ()", v), "u32" => format!("{}; 7", v), "char" => format!("{}; 'z'", v), "Vec<char>" => format!("{}; vec!['z', 'y']", v), _ => format!("{}; Default::default()", v) };
                    // both ways of returning nothing
                    if short == "unit1" { return_nothing(&short, lt, &ps, &body) } else { format!("pub fn {}{}({}) -> {} {{ {} }}", short, if lt { "<'a>" } else { "" }, ps, ret, body) }
                }, a.known));
            }
        }
        v
    }
}

/// A function which Oak does not know and whose name begins with an upper case letter is a variant or a structure.
pub fn constructor(a: &Action) -> bool { !a.known && last_name(&a.name).starts_with(|c: char| c.is_uppercase()) }
/// Without the module and the generic arguments.
pub fn last_name(name: &str) -> &str { name.rsplit("::").find(|s| !s.ends_with('>')).unwrap() }

fn return_nothing(name: &str, lt: bool, ps: &str, body: &str) -> String { format!("pub fn {}{}({}) {{ {} }}", name, if lt { "<'a>" } else { "" }, ps, body) }

pub fn asc_ty(t: &str) -> T { match t { "()" => T::Unit, "(^)" => T::Inv, t => T::Rust(t.into()) } }

/// The type of a choice of which the branches have the distinct types `ts`.
pub fn sum(mut ts: Vec<T>) -> Result<T, TyErr> {
    if ts.len() == 1 { return Ok(ts.pop().unwrap()); }
    if ts.len() == 2 && matches!(ts[0], T::Extern(_)) { return Ok(ts.pop().unwrap()); }
    if ts.len() == 2 && matches!(ts[1], T::Extern(_)) { return Ok(ts.swap_remove(0)); }
    if ts.iter().all(|t| t.unit_kind()) { Ok(T::Inv) } else { Err(TyErr::Mismatch) }
}

pub fn tuple(ts: Vec<T>) -> T {
    let mut flat: Vec<T> = vec![];
    for t in ts { match t { T::Tup(v) => flat.extend(v), t => flat.push(t) } }
    flat.retain(|t| *t != T::Inv);
    if flat.is_empty() { return T::Inv; }
    flat.retain(|t| *t != T::Unit);
    match flat.len() { 0 => T::Unit, 1 => flat.pop().unwrap(), _ => T::Tup(flat) }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Val {
    Unit,
    Char(char),
    Opt(Option<Box<Val>>),
    List(Vec<Val>),
    Tup(Vec<Val>),
    Str(String),
}

impl Val {
    pub fn show(&self, o: &mut String) {
        match self {
            Val::Unit => o.push_str("()"),
            Val::Char(c) => { o.push('\''); o.extend(c.escape_default()); o.push('\'') }
            Val::Opt(None) => o.push_str("?-"),
            Val::Opt(Some(v)) => { o.push_str("?("); v.show(o); o.push(')') }
            Val::List(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.show(o) } o.push(']') }
            Val::Tup(v) => { o.push('('); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.show(o) } o.push(')') }
            Val::Str(s) => o.push_str(s),
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.show(&mut s); s }
}

fn pack(mut v: Vec<Val>) -> Val {
    match v.len() { 0 => Val::Unit, 1 => v.pop().unwrap(), _ => Val::Tup(v) }
}

#[derive(Debug)]
pub struct Diverge;

/// The PEG evaluator: its states are the pairs (expression, position) it visits.
pub struct Ev<'g> {
    pub g: &'g G,
    pub inp: Vec<char>,
    pub off: Vec<usize>,
    pub far: usize,
    pub exp: BTreeSet<String>,
    pub log: Vec<String>,
    pub seen: HashSet<(usize, usize)>,
    pub trans: u64,
    /// the terminals tried are logged with the actions
    pub steps: bool,
    active: Vec<(usize, usize)>,
}

type Res = Result<Option<(usize, Vec<Val>)>, Diverge>;

impl<'g> Ev<'g> {
    pub fn new(g: &'g G, s: &str) -> Ev<'g> {
        let inp: Vec<char> = s.chars().collect();
        let mut off: Vec<usize> = s.char_indices().map(|x| x.0).collect();
        off.push(s.len());
        Ev { g, inp, off, far: 0, exp: BTreeSet::new(), log: vec![], seen: HashSet::new(), trans: 0, steps: false, active: vec![] }
    }
    fn fail(&mut self, p: usize, what: &str) -> Res {
        if p > self.far { self.far = p; self.exp.clear(); }
        if p == self.far { self.exp.insert(what.into()); }
        Ok(None)
    }
    pub fn run_rule(&mut self, r: usize, p: usize, parse: bool) -> Res {
        // no value is built by a rule of type unit
        let parse = parse && !self.g.ty_of_rule(r).unit_kind();
        self.run(self.g.roots[r], p, parse)
    }
    fn run(&mut self, n: usize, p: usize, parse: bool) -> Res {
        self.trans += 1;
        self.seen.insert((n, p));
        let ty = self.g.t(n);
        let parse = parse && !ty.unit_kind();
        let g = self.g;
        if self.steps {
            match &g.nodes[n].k {
                K::Lit(s, text) if !s.is_empty() => { let t = format!("p{}:{}", self.off[p], text); self.log.push(t) }
                K::Cls(..) | K::Any => { let t = format!("n{}", self.off[p]); self.log.push(t) }
                _ => (),
            }
        }
        match &g.nodes[n].k {
            K::Lit(s, text) => {
                if self.inp[p..].starts_with(s) { Ok(Some((p + s.len(), vec![]))) } else { self.fail(p, text) }
            }
            K::Cls(v, text) => match self.inp.get(p) {
                Some(&c) if v.iter().any(|(a, b)| *a <= c && c <= *b) => Ok(Some((p + 1, if parse { vec![Val::Char(c)] } else { vec![] }))),
                _ => self.fail(p, text),
            },
            K::Any => match self.inp.get(p) {
                Some(&c) => Ok(Some((p + 1, if parse { vec![Val::Char(c)] } else { vec![] }))),
                None => self.fail(p, "<character>"),
            },
            K::Nt(r) => {
                if self.active.contains(&(*r, p)) || self.active.len() > 3000 { return Err(Diverge); }
                self.active.push((*r, p));
                let x = self.run_rule(*r, p, parse);
                self.active.pop();
                let x = x?;
                Ok(x.map(|(q, v)| if !parse { (q, vec![]) } else { let t = self.norm(v, &ty); (q, t) }))
            }
            K::Seq(v) => {
                let mut q = p;
                let mut vals = vec![];
                for c in v {
                    match self.run(*c, q, parse)? { None => return Ok(None), Some((e, x)) => { q = e; vals.extend(x) } }
                }
                Ok(Some((q, vals)))
            }
            K::Cho(v) => {
                for c in v {
                    if let Some((q, x)) = self.run(*c, p, parse)? {
                        return Ok(Some((q, if parse { self.norm(x, &ty) } else { vec![] })));
                    }
                }
                Ok(None)
            }
            K::Opt(c) => match self.run(*c, p, parse)? {
                None => Ok(Some((p, if parse { vec![Val::Opt(None)] } else { vec![] }))),
                Some((q, x)) => Ok(Some((q, if parse { vec![Val::Opt(Some(Box::new(pack(x))))] } else { vec![] }))),
            },
            K::Star(c) | K::Plus(c) => {
                let min = matches!(g.nodes[n].k, K::Plus(_)) as usize;
                let mut q = p;
                let mut vals = vec![];
                let mut count = 0;
                while let Some((e, x)) = self.run(*c, q, parse)? {
                    if e == q { return Err(Diverge); }
                    q = e;
                    count += 1;
                    if parse { vals.push(pack(x)); }
                }
                if count < min { return Ok(None); }
                Ok(Some((q, if parse { vec![Val::List(vals)] } else { vec![] })))
            }
            K::Not(c) => match self.run(*c, p, false)? { None => Ok(Some((p, vec![]))), Some(_) => Ok(None) },
            K::And(c) => match self.run(*c, p, false)? { None => Ok(None), Some(_) => Ok(Some((p, vec![]))) },
            K::Asc(c, _) => {
                let x = self.run(*c, p, parse)?;
                Ok(x.map(|(q, v)| (q, if parse { self.norm(v, &ty) } else { vec![] })))
            }
            K::Act(c, a) => match self.run(*c, p, parse)? {
                None => Ok(None),
                Some((q, x)) => {
                    if !parse { return Ok(Some((q, vec![]))); }
                    let mut s = String::new();
                    let short = last_name(&a.name);
                    if !a.known {
                        let std = match &a.name[..] {
                            "Some" | "Option::Some" => Some(Val::Opt(Some(Box::new(pack(x.clone()))))),
                            "Box::new" => Some(Val::Str(format!("^{}", pack(x.clone()).text()))),
                            "Vec::new" => Some(Val::List(vec![])),
                            "u32::from" => Some(Val::Str((self.inp[p] as u32).to_string())),
                            _ => None,
                        };
                        if let Some(v) = std { return Ok(Some((q, vec![if a.boxed { Val::Str(format!("^{}", v.text())) } else { v }]))); }
                    }
                    s.push_str(short);
                    s.push('(');
                    for (i, v) in x.iter().enumerate() { if i > 0 { s.push(',') } v.show(&mut s) }
                    s.push(')');
                    if !constructor(a) { self.log.push(s.clone()); }
                    let mut s = match &g.ret_of(&a.name)[..] { "u32" => "7".to_string(), "char" => "'z'".into(), "Vec<char>" => "['z','y']".into(), _ => s };
                    if a.boxed { s.insert(0, '^'); }
                    Ok(Some((q, vec![Val::Str(s)])))
                }
            },
            K::Spn(c) => match self.run(*c, p, parse)? {
                None => Ok(None),
                Some((q, x)) => {
                    if !parse { return Ok(Some((q, vec![]))); }
                    let mut v = vec![Val::Str(format!("<{}-{}>", self.off[p], self.off[q]))];
                    v.extend(x);
                    Ok(Some((q, v)))
                }
            },
            K::Rng(c) => match self.run(*c, p, false)? {
                None => Ok(None),
                Some((q, _)) => Ok(Some((q, if parse { vec![Val::Str(format!("{{{}-{}}}", self.off[p], self.off[q]))] } else { vec![] }))),
            },
        }
    }
    /// Components of a value at type `ty`.
    fn norm(&self, v: Vec<Val>, ty: &T) -> Vec<Val> {
        let p = pack(v);
        match (ty, p) {
            (T::Inv | T::Unit, _) => vec![],
            (T::Tup(_), Val::Tup(v)) => v,
            (_, p) => vec![p],
        }
    }
}

/// What is observed of a rule on an input.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Obs {
    pub rok: bool,
    pub rend: usize,
    pub rfar: usize,
    pub rexp: BTreeSet<String>,
    pub pok: bool,
    pub pend: usize,
    pub pfar: usize,
    pub pexp: BTreeSet<String>,
    pub val: String,
    pub log: Vec<String>,
}

#[derive(Default, Clone)]
pub struct Count { pub states: u64, pub trans: u64 }

/// Err(()) if the evaluation diverges.
pub fn observe(g: &G, r: usize, s: &str, count: &mut Count) -> Result<Obs, Diverge> { observe_at(g, r, s, 0, count) }

pub fn observe_at(g: &G, r: usize, s: &str, p: usize, count: &mut Count) -> Result<Obs, Diverge> {
    let mut o = Obs::default();
    let mut e = Ev::new(g, s);
    e.far = p;
    if let Some((q, _)) = e.run_rule(r, p, false)? { o.rok = true; o.rend = e.off[q]; }
    o.rfar = e.off[e.far];
    o.rexp = e.exp.clone();
    count.states += e.seen.len() as u64;
    count.trans += e.trans;
    let mut e = Ev::new(g, s);
    e.far = p;
    if let Some((q, v)) = e.run_rule(r, p, true)? {
        o.pok = true;
        o.pend = e.off[q];
        o.val = pack(v).text();
        // a tuple of one component does not exist
    }
    o.pfar = e.off[e.far];
    o.pexp = e.exp.clone();
    o.log = e.log.clone();
    count.states += e.seen.len() as u64;
    count.trans += e.trans;
    Ok(o)
}

// ---------------------------------------------------------------------------------------------
// Well-formedness, after Ford's definition of the possible behaviours of an expression.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct W { pub f: bool, pub s: bool, pub ac: bool, pub nc: bool }

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum WErr { Never, Always, Loop, Unreachable, LeftRec }

const TERMINAL: W = W { f: true, s: true, ac: true, nc: false };

/// The attributes are the fixpoint reached from "may do anything and consumes" for the rules.
pub struct Wf<'g> { g: &'g G, rules: Vec<W>, recover: bool, pub errs: BTreeSet<WErr>, /// the expressions at fault
    pub at: BTreeSet<(WErr, usize)>, /// rule, rule called at the same position
    pub left: BTreeSet<(usize, usize)> }

pub fn well_formed(g: &G) -> Result<(), BTreeSet<WErr>> { let w = judge_wf(g); if w.errs.is_empty() { Ok(()) } else { Err(w.errs) } }

pub fn judge_wf(g: &G) -> Wf<'_> {
    // first without recovering from the errors: every expression at fault; then as the compiler does, for the kinds
    let mut w = Wf { g, rules: vec![TERMINAL; g.roots.len()], recover: false, errs: BTreeSet::new(), at: BTreeSet::new(), left: BTreeSet::new() };
    w.fixpoint();
    w.rules = vec![TERMINAL; g.roots.len()];
    w.recover = true;
    w.errs.clear();
    w.fixpoint();
    for r in 0..g.roots.len() {
        if g.external[r] { continue; }
        // rules reachable from r at the same position
        let mut todo = vec![r];
        let mut seen = BTreeSet::new();
        while let Some(x) = todo.pop() {
            let mut v = vec![];
            w.left_calls(g.roots[x], &mut v);
            for c in v { w.left.insert((x, c)); if seen.insert(c) { todo.push(c); } }
        }
        if seen.contains(&r) { w.errs.insert(WErr::LeftRec); w.at.insert((WErr::LeftRec, r)); }
    }
    w
}

impl<'g> Wf<'g> {
    fn fixpoint(&mut self) {
        let g = self.g;
        let mut fuel = 10 + 8 * g.roots.len();
        loop {
            let old = self.rules.clone();
            for r in 0..g.roots.len() { if !g.external[r] { self.rules[r] = self.expr(g.roots[r]); } }
            // errors are recovered from, the kinds of errors of all the rounds are kept
            if old == self.rules { break; }
            fuel -= 1;
            if fuel == 0 { break; }
        }
    }
    fn err(&mut self, e: WErr, n: usize) { self.errs.insert(e); self.at.insert((e, n)); }
    fn expr(&mut self, n: usize) -> W {
        let g = self.g;
        let mut w = match &g.nodes[n].k {
            K::Lit(s, _) => if s.is_empty() { W { f: false, s: true, ac: false, nc: false } } else { TERMINAL },
            K::Cls(..) | K::Any => TERMINAL,
            K::Nt(r) => if g.nodes[n].ext { TERMINAL } else { self.rules[*r] },
            K::Act(c, _) | K::Asc(c, _) | K::Spn(c) | K::Rng(c) => self.expr(*c),
            K::Opt(c) => { let w = self.expr(*c); W { f: false, s: true, ac: false, nc: w.nc } }
            K::Star(c) | K::Plus(c) => {
                let star = matches!(g.nodes[n].k, K::Star(_));
                let w = self.expr(*c);
                let w = if w.s && !w.ac { self.err(WErr::Loop, n); if self.recover { TERMINAL } else { w } } else { w };
                if star { W { f: false, s: true, ac: false, nc: w.nc } } else { w }
            }
            K::And(c) => { let w = self.expr(*c); W { ac: false, nc: true, ..w } }
            K::Not(c) => { let w = self.expr(*c); W { f: w.s, s: w.f, ac: false, nc: true } }
            K::Seq(v) => {
                let mut w = W { f: false, s: true, ac: false, nc: true };
                for c in v { let x = self.expr(*c); w.f |= x.f; w.s &= x.s; w.ac |= x.ac; w.nc &= x.nc; }
                w
            }
            K::Cho(v) => {
                let mut w = W { f: true, s: false, ac: true, nc: true };
                for (i, c) in v.iter().enumerate() {
                    let x = self.expr(*c);
                    w.f &= x.f; w.s |= x.s; w.ac &= x.ac; w.nc &= x.nc;
                    if i + 1 != v.len() && !x.f { self.err(WErr::Unreachable, n); }
                }
                w
            }
        };
        if w.f && !w.s { self.err(WErr::Never, n); if self.recover { w.s = true } }
        else if w.s && !w.f && w.nc { self.err(WErr::Always, n); if self.recover { w.nc = false } }
        w
    }
    /// Rules that may be called at the position where n starts. Returns whether n may succeed without consuming.
    fn left_calls(&mut self, n: usize, out: &mut Vec<usize>) -> bool {
        let g = self.g;
        match &g.nodes[n].k {
            K::Lit(s, _) => s.is_empty(),
            K::Cls(..) | K::Any => false,
            K::Nt(r) => if g.nodes[n].ext { false } else { out.push(*r); !self.rules[*r].ac },
            K::Act(c, _) | K::Asc(c, _) | K::Spn(c) | K::Rng(c) => self.left_calls(*c, out),
            K::Opt(c) | K::Star(c) => { self.left_calls(*c, out); true }
            K::Plus(c) => self.left_calls(*c, out),
            K::Not(c) | K::And(c) => { self.left_calls(*c, out); true }
            K::Seq(v) => { for c in v { if !self.left_calls(*c, out) { return false; } } true }
            K::Cho(v) => { let mut e = false; for c in v { e |= self.left_calls(*c, out); } e }
        }
    }
}

impl Gram {
    /// The calls of the rule number n become calls of the rule number map[n].
    pub fn renumber(mut self, map: &[usize]) -> Gram {
        fn go(e: &E, map: &[usize]) -> E { match e { E::Nt(n) => E::Nt(map[*n]), e => e.map_children(&mut |x| go(x, map)) } }
        for r in self.rules.iter_mut() { r.e = go(&r.e, map); }
        self
    }
    pub fn names(&self) -> Vec<String> { self.rules.iter().map(|r| r.name.clone()).collect() }
    /// One line of grammar text.
    pub fn render(&self) -> String {
        let names = self.names();
        let mut o = String::new();
        for r in self.rules.iter().filter(|r| !r.external) {
            if !o.is_empty() { o.push(' '); }
            o.push_str(&r.name);
            if let Some(t) = &r.asc {
                write!(o, ":{}", t).unwrap()
            }
            o.push_str(" = ");
            o.push_str(&r.e.render(&names, self.full_parens));
        }
        for i in &self.items { o.push(' '); o.push_str(i); }
        o
    }
}
