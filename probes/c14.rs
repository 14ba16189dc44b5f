// C14: sequences of operations on a parse state, replayed from the start, against a model of its contract.
use oak_runtime::*;
use std::collections::{BTreeSet, HashMap, VecDeque};

type S<'a> = StrStream<'a>;
enum St<'a> { U(ParseState<S<'a>, ()>), N(ParseState<S<'a>, u32>) }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Next, Pre(&'static str), Err(&'static str), SucU, SucN(u32), FailU, FailN, Mark, Restore(usize), RestoreFail(usize), Extract, Discard, ErrFail(&'static str) }

/// Kind of data: unit or number.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct M { pos: usize, far: usize, exp: BTreeSet<&'static str>, failed: bool, num: bool, data: Option<u32>, marks: Vec<usize> }

enum Expect { Ok(M), Panic, Skip }

fn model(m: &M, chars: &[char], o: Op) -> Expect {
    let mut n = m.clone();
    match o {
        Op::Next => if n.pos < chars.len() { n.pos += 1 },
        Op::Pre(p) => { let v: Vec<char> = p.chars().collect(); if chars[n.pos..].starts_with(&v) { n.pos += v.len() } }
        Op::Err(e) => err(&mut n, e),
        Op::ErrFail(e) => { err(&mut n, e); n.data = None; n.num = false; }
        Op::SucU => { n.failed = false; n.num = false; n.data = Some(0) }
        Op::SucN(x) => { n.failed = false; n.num = true; n.data = Some(x) }
        Op::FailU => { n.failed = true; n.num = false; n.data = None }
        Op::FailN => { n.failed = true; n.num = true; n.data = None }
        Op::Mark => { if n.failed { return Expect::Panic } n.marks.push(n.pos); if n.marks.len() > 2 { n.marks.remove(0); } }
        Op::Restore(k) => { if k >= n.marks.len() { return Expect::Skip } if n.data.is_some() { return Expect::Panic } n.pos = n.marks[k]; n.failed = false; n.num = false; }
        Op::RestoreFail(k) => {
            if k >= n.marks.len() { return Expect::Skip }
            if !n.failed || n.data.is_some() { return Expect::Panic }
            n.pos = n.marks[k]; n.failed = false; n.num = false;
        }
        Op::Extract => { if n.failed || n.data.is_none() { return Expect::Panic } n.data = None; n.num = false }
        Op::Discard => { if n.num { return Expect::Skip } n.data = None }
    }
    Expect::Ok(n)
}
fn err(n: &mut M, e: &'static str) {
    n.failed = true;
    if n.pos > n.far { n.far = n.pos; n.exp.clear(); n.exp.insert(e); } else if n.pos == n.far { n.exp.insert(e); }
}

fn real<'a>(s: St<'a>, marks: &mut Vec<S<'a>>, o: Op, extracted: &mut Option<u32>) -> St<'a> {
    macro_rules! both { ($s:ident, $u:expr, $n:expr) => { match s { St::U(mut $s) => $u, St::N(mut $s) => $n } } }
    macro_rules! same { ($s:ident, $u:expr) => { match s { St::U(mut $s) => { $u; St::U($s) } St::N(mut $s) => { $u; St::N($s) } } } }
    macro_rules! conv { ($s:ident, $u:expr) => { match s { St::U($s) => $u, St::N($s) => $u } } }
    match o {
        Op::Next => same!(s, { s.next(); }),
        Op::Pre(p) => same!(s, { s.consume_prefix(p); }),
        Op::Err(e) => same!(s, s.error(e)),
        Op::ErrFail(e) => match s { St::U(mut s) => { s.error(e); St::U(s.failure()) } St::N(mut s) => { s.error(e); St::U(s.failure()) } },
        Op::SucU => conv!(s, St::U(s.success(()))),
        Op::SucN(x) => conv!(s, St::N(s.success(x))),
        Op::FailU => conv!(s, St::U(s.failure())),
        Op::FailN => conv!(s, St::N(s.failure())),
        Op::Mark => same!(s, { let m = s.mark(); marks.push(m); if marks.len() > 2 { marks.remove(0); } }),
        Op::Restore(k) => { let m = marks[k].clone(); conv!(s, St::U(s.restore(m))) }
        Op::RestoreFail(k) => { let m = marks[k].clone(); conv!(s, St::U(s.restore_from_failure(m))) }
        Op::Extract => match s { St::U(s) => { let (s, _) = s.extract_data(); *extracted = Some(0); St::U(s) } St::N(s) => { let (s, x) = s.extract_data(); *extracted = Some(x); St::U(s) } },
        Op::Discard => match s { St::U(mut s) => { s.discard_data(); St::U(s) } s => s },
    }
}

fn look(s: &St, m: &M, off: &[usize]) -> Option<String> {
    macro_rules! eq { ($a:expr, $b:expr, $w:expr) => { let (a, b) = ($a, $b); if a != b { return Some(format!("{} is {:?} but must be {:?}", $w, a, b)) } } }
    macro_rules! common { ($s:ident) => {
        eq!($s.is_failed(), m.failed, "is_failed");
        eq!($s.is_successful(), !m.failed, "is_successful");
        eq!($s.failed, m.failed, "failed");
        eq!($s.current.bytes_offset(), off[m.pos], "the position");
        eq!($s.farthest_read.bytes_offset(), off[m.far], "the farthest failure");
        eq!($s.expected.iter().copied().collect::<BTreeSet<_>>(), m.exp.clone(), "the set of expected items");
    } }
    match s {
        St::U(s) => { common!(s); eq!(false, m.num, "the kind of data"); eq!(s.data.is_some(), m.data.is_some(), "the presence of data"); }
        St::N(s) => { common!(s); eq!(true, m.num, "the kind of data"); eq!(s.data, m.data, "the data"); }
    }
    None
}

/// Consumes the state in the ways a user does.
fn last(s: St, m: &M, off: &[usize], end: usize, way: usize) -> Option<String> {
    let full = m.pos == end;
    macro_rules! go { ($s:ident, $want:expr) => {
        match way {
            0 => {
                let r = $s.into_result();
                match r {
                    ParseResult::Success(d) => if m.data.is_none() || !full { return Some("into_result is Success but must not".into()) } else if Some(d) != $want { return Some("into_result holds other data".into()) },
                    ParseResult::Partial(d, _) => if m.data.is_none() || full { return Some("into_result is Partial but must not".into()) } else if Some(d) != $want { return Some("into_result holds other data".into()) },
                    ParseResult::Failure(_) => if m.data.is_some() { return Some("into_result is Failure but must not".into()) },
                }
                if m.data.is_none() && !m.failed { return Some("into_result accepts a successful state without data".into()) }
            }
            _ => { let d = $s.unwrap_data(); if Some(d) != $want { return Some("unwrap_data yields other data".into()) } }
        }
    } }
    match s {
        St::U(s) => { let w = if m.data.is_some() { Some(()) } else { None }; go!(s, w) }
        St::N(s) => { let w = m.data; go!(s, w) }
    }
    None
}

fn replay<'a>(text: &'a str, path: &[Op]) -> (St<'a>, Vec<S<'a>>, Option<u32>) {
    let mut s = St::U(text.into_state());
    let mut marks = vec![];
    let mut x = None;
    for o in path { s = real(s, &mut marks, *o, &mut x); }
    (s, marks, x)
}

fn main() {
    quiet();
    let (_, _, thorough) = args();
    let texts = mine(["", "a", "ab", "aé", "éb", "aba", "\u{1d11e}a", "abab", "ab", "aaé"].iter().map(|s| s.to_string()).collect());
    let ops = [Op::Next, Op::Pre("ab"), Op::Pre("é"), Op::Err("x"), Op::Err("y"), Op::SucU, Op::SucN(1), Op::SucN(2), Op::FailU, Op::FailN, Op::Mark, Op::Restore(0), Op::Restore(1), Op::RestoreFail(0), Op::RestoreFail(1), Op::Extract, Op::Discard, Op::ErrFail("z")];
    let (mut states, mut trans, mut traces) = (0u64, 0u64, 0u64);
    for t in &texts {
        let chars: Vec<char> = t.chars().collect();
        let mut off: Vec<usize> = t.char_indices().map(|x| x.0).collect();
        off.push(t.len());
        at(&format!("text {:?}", t));
        let init = M { pos: 0, far: 0, exp: BTreeSet::new(), failed: false, num: false, data: None, marks: vec![] };
        let mut n = 0u64;
        // one shortest sequence for each state of the model; up to depth `plain` all the sequences
        let plain = if thorough { 4 } else { 3 };
        let mut seen: HashMap<M, usize> = HashMap::new();
        let mut todo: VecDeque<(M, Vec<Op>)> = VecDeque::new();
        todo.push_back((init.clone(), vec![]));
        seen.insert(init, 0);
        let limit = if thorough { 400_000 } else { 12_000 };
        let mut nv = 0;
        while let Some((m, path)) = todo.pop_front() {
            n += 1;
            states += 1;
            if n > limit || nv > 20 { break }
            for way in 0..2 {
                // the result of an error on a state which holds data is outside of the contract
                if m.failed && m.data.is_some() { continue }
                let must_panic = if way == 0 { m.data.is_none() && !m.failed } else { m.data.is_none() };
                traces += 1;
                let r = guard(|| { let (s, _, _) = replay(t, &path); last(s, &m, &off, chars.len(), way) });
                match (r, must_panic) {
                    (Ok(None), false) | (Err(_), true) => (),
                    (Ok(d), _) => { nv += 1; viol(&format!("{} {:?} {}", esc(t), path, ["into_result", "unwrap_data"][way]), &d.unwrap_or("must panic".into())) }
                    (Err(e), false) => { nv += 1; viol(&format!("{} {:?} {}", esc(t), path, ["into_result", "unwrap_data"][way]), &e) }
                }
            }
            for o in &ops {
                let e = model(&m, &chars, *o);
                if let Expect::Skip = e { continue }
                trans += 1;
                traces += 1;
                let key = format!("{} {:?} {:?}", esc(t), path, o);
                let r = guard(|| {
                    let (s, mut marks, mut x) = replay(t, &path);
                    x = None;
                    let s = real(s, &mut marks, *o, &mut x);
                    let mut d = None;
                    if let Expect::Ok(n) = &e {
                        d = look(&s, n, &off);
                        if d.is_none() && marks.iter().map(|s| s.bytes_offset()).collect::<Vec<_>>() != n.marks.iter().map(|p| off[*p]).collect::<Vec<_>>() { d = Some("the marks differ".into()) }
                        if *o == Op::Extract && x != m.data { d = Some(format!("extract_data yields {:?} but must yield {:?}", x, m.data)) }
                    }
                    d
                });
                match (r, &e) {
                    (Ok(None), Expect::Ok(_)) | (Err(_), Expect::Panic) => (),
                    (Ok(Some(d)), Expect::Ok(_)) => { nv += 1; viol(&key, &d); continue }
                    (Ok(_), _) => { nv += 1; viol(&key, "must panic"); continue }
                    (Err(p), _) => { nv += 1; viol(&key, &p); continue }
                }
                if let Expect::Ok(n) = e {
                    let new = !seen.contains_key(&n);
                    if new { seen.insert(n.clone(), path.len() + 1); }
                    if new || path.len() < plain { let mut p = path.clone(); p.push(*o); todo.push_back((n, p)); }
                }
            }
        }
        sample(&format!("{:?}: {} states of the model, {} visited, longest sequence {}", t, seen.len(), n, seen.values().max().unwrap()));
    }
    stat("states", states);
    stat("transitions", trans);
    stat("traces", traces);
    end();
}
