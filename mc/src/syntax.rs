//! Reference parser of the grammar language, over lists of tokens: written from the documented precedence table.
use crate::model::*;

pub type Tok = &'static str;

#[derive(Clone, Debug)]
pub struct Block { pub name: String, pub asc: Option<String>, pub e: E }

/// Err(true): the error is at the end of the text or of a group.
pub struct P<'t> { t: &'t [Tok], i: usize, pub names: Vec<String>, pub calls: Vec<String>, pub actions: Vec<String> }

pub fn is_name(t: Tok) -> bool { t.len() < 4 && t.chars().all(|c| c.is_ascii_lowercase()) && t != "box" && !t.is_empty() }
pub fn is_type(t: Tok) -> bool { t.starts_with(':') && t.len() > 1 }
fn ty_text(t: Tok) -> String { match t { ":()" => "()".into(), ":(^)" => "(^)".into(), t => t[1..].trim_start_matches('(').trim_end_matches(')').to_string() } }

impl<'t> P<'t> {
    /// Names which are not rules of the text are given the numbers after those of `names`.
    pub fn new(t: &'t [Tok], names: &[&str]) -> P<'t> { P { t, i: 0, names: names.iter().map(|s| s.to_string()).collect(), calls: vec![], actions: vec![] } }
    fn peek(&self) -> Tok { self.t.get(self.i).copied().unwrap_or("") }
    fn err<T>(&self) -> Result<T, bool> { let p = self.peek(); Err(p.is_empty() || p == ")") }
    /// A name followed by `=`, or by a type and `=`.
    fn at_rule(&self) -> bool {
        if !is_name(self.peek()) { return false; }
        let n = |k: usize| self.t.get(self.i + k).copied().unwrap_or("");
        n(1) == "=" || (is_type(n(1)) && n(2) == "=")
    }
    pub fn blocks(&mut self) -> Result<Vec<Block>, bool> {
        let mut v = vec![];
        while self.i < self.t.len() {
            if !self.at_rule() { return self.err(); }
            let name = self.peek().to_string();
            self.i += 1;
            let mut asc = None;
            if is_type(self.peek()) { asc = Some(ty_text(self.peek())); self.i += 1; }
            self.i += 1;
            let e = self.choice()?;
            v.push(Block { name, asc, e });
        }
        Ok(v)
    }
    pub fn choice(&mut self) -> Result<E, bool> {
        let mut v = vec![];
        loop {
            let mut e = self.spanned()?;
            if self.peek() == ">" {
                self.i += 1;
                let boxed = self.peek() == "box";
                if boxed { self.i += 1; }
                if !is_name(self.peek()) { return self.err(); }
                self.actions.push(self.peek().into());
                let a = Action { name: self.peek().into(), boxed, known: self.peek() == "f" };
                self.i += 1;
                e = E::Act(Box::new(e), a);
            }
            v.push(e);
            if self.peek() == "/" { self.i += 1 } else { break }
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { E::Cho(v) })
    }
    fn spanned(&mut self) -> Result<E, bool> {
        match self.peek() {
            "..." => { self.i += 1; Ok(rng(self.seq()?)) }
            ".." => { self.i += 1; Ok(spn(self.seq()?)) }
            _ => self.seq(),
        }
    }
    fn seq(&mut self) -> Result<E, bool> {
        let mut v = vec![];
        while let Some(e) = self.typed()? { v.push(e); }
        if v.is_empty() { return self.err(); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { E::Seq(v) })
    }
    fn typed(&mut self) -> Result<Option<E>, bool> {
        let e = self.prefixed()?;
        let t = self.peek();
        if is_type(t) {
            match e { None => Err(false), Some(e) => { self.i += 1; Ok(Some(asc(e, &ty_text(t)))) } }
        } else if t == ":" { self.i += 1; self.err() } else { Ok(e) }
    }
    fn prefixed(&mut self) -> Result<Option<E>, bool> {
        let t = self.peek();
        if t != "!" && t != "&" { return self.suffixed(); }
        self.i += 1;
        match self.suffixed()? { None => self.err(), Some(e) => Ok(Some(if t == "!" { not(e) } else { and(e) })) }
    }
    fn suffixed(&mut self) -> Result<Option<E>, bool> {
        let e = match self.atom()? { None => return Ok(None), Some(e) => e };
        let r = match self.peek() { "?" => opt(e), "*" => star(e), "+" => plus(e), _ => return Ok(Some(e)) };
        self.i += 1;
        Ok(Some(r))
    }
    fn atom(&mut self) -> Result<Option<E>, bool> {
        let t = self.peek();
        if t.starts_with('"') { self.i += 1; return Ok(Some(lit(&t[1..t.len() - 1]))); }
        if t.starts_with("[\"") { self.i += 1; return Ok(Some(cls(&t[2..t.len() - 2]))); }
        if t == "." { self.i += 1; return Ok(Some(E::Any)); }
        if t == ".." || t == "..." { return Err(false); }
        if t == "(" {
            self.i += 1;
            if self.peek() == ")" { return Err(false); }
            let e = self.choice()?;
            if self.peek() != ")" { return self.err(); }
            self.i += 1;
            return Ok(Some(e));
        }
        if is_name(t) {
            if self.at_rule() { return Ok(None); }
            self.i += 1;
            self.calls.push(t.into());
            let n = match self.names.iter().position(|x| x == t) { Some(n) => n, None => { self.names.push(t.into()); self.names.len() - 1 } };
            return Ok(Some(E::Nt(n)));
        }
        Ok(None)
    }
}

pub fn balanced(t: &[Tok]) -> bool {
    let mut d = 0i32;
    for x in t { if *x == "(" { d += 1 } else if *x == ")" { d -= 1; if d < 0 { return false } } }
    d == 0
}

pub fn strings(alpha: &[Tok], len: usize) -> Vec<Vec<Tok>> {
    let mut r: Vec<Vec<Tok>> = vec![vec![]];
    for _ in 0..len {
        let mut n = Vec::with_capacity(r.len() * alpha.len());
        for w in &r { for a in alpha { let mut w = w.clone(); w.push(*a); n.push(w); } }
        r = n;
    }
    r.retain(|t| balanced(t));
    r
}

/// Tokens of a rendered grammar.
pub fn tokens(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        let st = i;
        if c[i] == ' ' { i += 1; continue; }
        if c[i] == '"' {
            i += 1;
            while c[i] != '"' { if c[i] == '\\' { i += 1 } i += 1; }
            i += 1;
        } else if c[i].is_alphanumeric() || c[i] == '_' { while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1 } }
        else if c[i..].starts_with(&['.', '.', '.']) { i += 3 }
        else if c[i..].starts_with(&['.', '.']) || c[i..].starts_with(&[':', ':']) || c[i..].starts_with(&['-', '>']) { i += 2 }
        else if c[i] == '\'' { i += 1; while i < c.len() && c[i].is_alphanumeric() { i += 1 } }
        else { i += 1 }
        v.push(c[st..i].iter().collect());
    }
    v
}

/// The tokens with a separator, or without any where the lexer allows it.
pub fn layout(toks: &[String], sep: &str) -> String {
    let mut s = String::new();
    for t in toks {
        if sep.is_empty() {
            let word = |c: char| c.is_alphanumeric() || c == '_' || c == '"' || c == '\'';
            let l = s.chars().last().unwrap_or(' ');
            let f = t.chars().next().unwrap();
            // two words, or two punctuations which could make one
            if (word(l) && word(f)) || (!word(l) && !word(f) && l != '(' && l != ')' && f != '(' && f != ')' && l != ' ') { s.push(' ') }
        } else if !s.is_empty() { s.push_str(sep); if sep.ends_with("/") && t.starts_with("/") { s.push(' ') } }
        s.push_str(t);
    }
    s
}
