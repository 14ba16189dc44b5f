// C29: the Calc language of the manual, every token string up to a length, against a reference parser.
extern crate oak;
use oak_runtime::*;
use oak_runtime::parse_state::ParseResult;
use oak::oak;
use self::Expression::*;
use self::BinOp::*;
use std::str::FromStr;

pub type PExpr = Box<Expression>;

#[derive(Debug, PartialEq, Clone)]
pub enum Expression {
  Variable(String),
  Number(u32),
  BinaryExpr(BinOp, PExpr, PExpr),
  LetIn(String, PExpr, PExpr)
}

#[derive(Debug, PartialEq, Clone)]
pub enum BinOp {
  Add, Sub, Mul, Div, Exp
}

oak! {
  // Optional stream declaration.
  type Stream<'a> = StrStream<'a>;

  program = spacing expression

  expression
    = term (term_op term)* > fold_left

  term
    = exponent (factor_op exponent)* > fold_left

  exponent
    = (factor exponent_op)* factor > fold_right

  factor: PExpr
    = number > box Number
    / identifier > box Variable
    / let_expr > box LetIn
    / lparen expression rparen

  let_expr = let_kw let_binding in_kw expression
  let_binding = identifier bind_op expression

  term_op: BinOp
    = add_op > Add
    / sub_op > Sub

  factor_op: BinOp
    = mul_op > Mul
    / div_op > Div

  exponent_op: BinOp = exp_op > Exp

  identifier = !digit !keyword ident_char+ spacing > to_string
  ident_char = ["a-zA-Z0-9_"]

  digit = ["0-9"]
  number = digit+ spacing > to_number
  spacing = [" \n\r\t"]*:(^)

  kw_tail = !ident_char spacing

  keyword = let_kw / in_kw
  let_kw = "let" kw_tail
  in_kw = "in" kw_tail

  bind_op = "=" spacing
  add_op = "+" spacing
  sub_op = "-" spacing
  mul_op = "*" spacing
  div_op = "/" spacing
  exp_op = "^" spacing
  lparen = "(" spacing
  rparen = ")" spacing

  fn to_number(raw_text: Vec<char>) -> u32 {
    u32::from_str(&*to_string(raw_text)).unwrap()
  }

  fn to_string(raw_text: Vec<char>) -> String {
    raw_text.into_iter().collect()
  }

  fn fold_left(head: PExpr, rest: Vec<(BinOp, PExpr)>) -> PExpr {
    rest.into_iter().fold(head,
      |accu, (op, expr)| Box::new(BinaryExpr(op, accu, expr)))
  }

  fn fold_right(front: Vec<(PExpr, BinOp)>, last: PExpr) -> PExpr {
    front.into_iter().rev().fold(last,
      |accu, (expr, op)| Box::new(BinaryExpr(op, expr, accu)))
  }
}

// --- the reference: a lexer and a precedence climbing parser

#[derive(Debug, PartialEq, Clone)]
enum Tk { Num(u32), Id(String), Let, In, Op(char) }

fn lex(s: &str) -> Option<Vec<Tk>> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut v) = (0, vec![]);
    while i < c.len() {
        if " \n\r\t".contains(c[i]) { i += 1; continue }
        if c[i].is_ascii_digit() {
            let j = i;
            while i < c.len() && c[i].is_ascii_digit() { i += 1 }
            v.push(Tk::Num(c[j..i].iter().collect::<String>().parse().unwrap()));
        } else if c[i].is_ascii_alphabetic() || c[i] == '_' {
            let j = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1 }
            let w: String = c[j..i].iter().collect();
            v.push(match &w[..] { "let" => Tk::Let, "in" => Tk::In, _ => Tk::Id(w) });
        } else if "=+-*/^()".contains(c[i]) { v.push(Tk::Op(c[i])); i += 1 } else { return None }
    }
    Some(v)
}

struct Pr<'x> { t: &'x [Tk], i: usize }
impl<'x> Pr<'x> {
    fn op(&self) -> Option<char> { match self.t.get(self.i) { Some(Tk::Op(c)) => Some(*c), _ => None } }
    fn eat(&mut self, t: Tk) -> Option<()> { if self.t.get(self.i) == Some(&t) { self.i += 1; Some(()) } else { None } }
    /// the operators of level at least `min`
    fn expr(&mut self, min: u8) -> Option<Expression> {
        let mut l = self.atom()?;
        loop {
            let (lvl, op) = match self.op() { Some('+') => (1, Add), Some('-') => (1, Sub), Some('*') => (2, Mul), Some('/') => (2, Div), Some('^') => (3, Exp), _ => return Some(l) };
            if lvl < min { return Some(l) }
            self.i += 1;
            let r = self.expr(if lvl == 3 { 3 } else { lvl + 1 })?;
            l = BinaryExpr(op, Box::new(l), Box::new(r));
        }
    }
    fn atom(&mut self) -> Option<Expression> {
        match self.t.get(self.i)?.clone() {
            Tk::Num(n) => { self.i += 1; Some(Number(n)) }
            Tk::Id(s) => { self.i += 1; Some(Variable(s)) }
            Tk::Op('(') => { self.i += 1; let e = self.expr(1)?; self.eat(Tk::Op(')'))?; Some(e) }
            Tk::Let => {
                self.i += 1;
                let s = match self.t.get(self.i) { Some(Tk::Id(s)) => s.clone(), _ => return None };
                self.i += 1;
                self.eat(Tk::Op('='))?;
                let e = self.expr(1)?;
                self.eat(Tk::In)?;
                // as far as possible
                let b = self.expr(1)?;
                Some(LetIn(s, Box::new(e), Box::new(b)))
            }
            _ => None,
        }
    }
}

fn reference(s: &str) -> Option<Expression> {
    let t = lex(s)?;
    let mut p = Pr { t: &t, i: 0 };
    let e = p.expr(1)?;
    if p.i == t.len() { Some(e) } else { None }
}

fn check(s: &str, n: &mut (u64, u64)) {
    let want = reference(s);
    n.0 += 1;
    if want.is_some() { n.1 += 1 }
    let got = guard(|| match parse_program(s.into_state()).into_result() { ParseResult::Success(e) => Some(*e), _ => None });
    match got {
        Err(p) => viol(s, &format!("panics: {}", p)),
        Ok(got) => if got != want { viol(s, &format!("parsed as {:?}, but it is {:?}", got, want)) },
    }
    let rec = guard(|| match recognize_program(s.into_state()).into_result() { ParseResult::Success(_) => true, _ => false });
    if rec != Ok(want.is_some()) { viol(s, &format!("recognized: {:?}, but it is {:?}", rec, want)) }
}

fn ident(c: Option<char>) -> bool { c.map_or(false, |c| c.is_ascii_alphanumeric() || c == '_') }

/// The tokens separated only where they must be; with spaces everywhere; glued as they are.
fn layouts(t: &[&str], k: usize) -> Vec<String> {
    let mut min = String::new();
    for x in t { if ident(min.chars().last()) && ident(x.chars().next()) { min.push(' ') } min.push_str(x) }
    match k { 0 => vec![min], 1 => vec![t.join(" ")], 2 => vec![format!(" {}\n", t.join("\t "))], 3 => vec![t.concat()], _ => vec![min, format!("\r\n{}  ", t.join(" \n")), t.concat()] }
}

fn strings(tokens: &[&'static str], max: usize, k: usize, n: &mut (u64, u64)) {
    let (me, of, _) = args();
    let b = tokens.len();
    let mut idx = 0usize;
    for len in 0..=max {
        let total = b.pow(len as u32);
        for x in 0..total {
            idx += 1;
            if idx % of != me { continue }
            let mut y = x;
            let mut t = vec![];
            for _ in 0..len { t.push(tokens[y % b]); y /= b; }
            for s in layouts(&t, k) { check(&s, n) }
        }
    }
}

/// Every expression of `size` operators, as a token list: with the parentheses it needs, or more.
fn trees(size: usize, level: u8, atoms: &[&'static str], ops: &[(&'static str, u8)], lets: bool) -> Vec<Vec<&'static str>> {
    let mut v: Vec<Vec<&'static str>> = vec![];
    if size == 0 { for a in atoms { v.push(vec![a]) } return v }
    for (o, l) in ops {
        for i in 0..size {
            for x in trees(i, if *l == 3 { 4 } else { *l }, atoms, ops, false) { for y in trees(size - 1 - i, if *l == 3 { 3 } else { *l + 1 }, atoms, ops, lets) {
                let mut t = x.clone();
                t.push(o);
                t.extend(y);
                if *l < level { t.insert(0, "("); t.push(")"); }
                v.push(t);
            } }
        }
    }
    if lets { for i in 0..size { for x in trees(i, 1, atoms, ops, lets) { for y in trees(size - 1 - i, 1, atoms, ops, lets) {
        let mut t = vec!["let", "a", "="];
        t.extend(x.iter());
        t.push("in");
        t.extend(y);
        if level > 1 { let mut p = t.clone(); p.insert(0, "("); p.push(")"); v.push(p); }
        v.push(t);
    } } } }
    v
}

fn main() {
    quiet();
    let (_, _, t) = args();
    let d = t as usize;
    let mut n = (0, 0);
    at("token strings");
    // every token, every short string, every layout
    strings(&["1", "20", "a", "in1", "let", "in", "=", "+", "-", "*", "/", "^", "(", ")"], 3 + d, 9, &mut n);
    strings(&["1", "a", "let", "in", "=", "+", "*", "^", "(", ")"], 5 + d, 0, &mut n);
    // arithmetic only
    strings(&["1", "+", "*", "^", "(", ")"], 7 + d, 3, &mut n);
    strings(&["1", "a", "+", "-", "/", "^"], 7 + d, 1, &mut n);
    // letters
    strings(&["l", "e", "t", "i", "n", "1", " ", "_", "="], 5 + d, 3, &mut n);
    at("let");
    for a in ["", "1", "a", "let a = 1 in a", "(a", "a)", "in", "a + 1"] { for b in ["", "2", "a ^ 2", "a b", "let b = a in b * a", ")", "in a"] { for c in ["", " + 1", " ^ 2 ^ 3", " in 2", ")"] {
        for p in ["", "1 + ", "2 ^ ", "(", "1 - 2 * "] { for q in ["", ")"] { let s = format!("{}let x = {} in {}{}{}", p, a, b, c, q); for s in [s.clone(), s.replace(" ", "  \n"), s.replace(" = ", "=").replace(" + ", "+")] { check(&s, &mut n) } } }
    } } }
    at("trees");
    let (me, of, _) = args();
    let all: Vec<(&str, u8)> = vec![("+", 1), ("-", 1), ("*", 2), ("/", 2), ("^", 3)];
    let mut k = 0;
    for size in 0..=4 + d { for (x, ops) in [&all[..], &[all[0], all[2], all[4]][..]].iter().enumerate() {
        if x == 0 && size > 3 + d || x == 1 && size < 3 { continue }
        for t in trees(size, 1, if size < 3 { &["1", "b"] } else { &["1"] }, ops, x == 1 || size < 3) {
            k += 1;
            if k % of != me { continue }
            for s in layouts(&t, [0, 1, 2][k % 3]) { check(&s, &mut n); }
            // one token is missing
            if size < 3 { for i in 0..t.len() { let mut u = t.clone(); u.remove(i); for s in layouts(&u, 9) { check(&s, &mut n) } } }
        }
    } }
    stat("states", n.0);
    stat("transitions", 2 * n.0);
    stat("traces", 2 * n.0);
    stat("well_formed_strings", n.1);
    sample(&format!("{} strings, {} well-formed", n.0, n.1));
    end();
}
