// C13: operation sequences on two cursors over a string, against positions in a vector of characters.
use oak_runtime::*;
use std::collections::{HashSet, VecDeque};
use std::cmp::Ordering;

const PREFIXES: &[&'static str] = &["", "a", "b", "ab", "aa", "aab", "é", "è", "ê", "éa", "aé", "\n", "\r\n", "\r", "\n\n", "𝄞", "𝄟", "€", "₠", "bé𝄞", "\t", "\0", " ", "a\0", "A", "\u{feff}", "\u{2028}"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Next(usize), Pre(usize, usize), Copy(usize, usize), Skip(usize, usize) }

struct Model { chars: Vec<char>, off: Vec<usize>, text: String }

impl Model {
    fn new(t: &str) -> Model {
        let mut off: Vec<usize> = t.char_indices().map(|x| x.0).collect();
        off.push(t.len());
        Model { chars: t.chars().collect(), off, text: t.to_string() }
    }
    fn starts(&self, p: usize, s: &str) -> bool { let v: Vec<char> = s.chars().collect(); self.chars[p..].starts_with(&v) }
    fn line_col(&self, p: usize) -> (usize, usize) {
        let mut l = 1; let mut c = 1;
        for i in 0..p { if self.chars[i] == '\n' { l += 1; c = 1 } else { c += self.chars[i].len_utf8() } }
        (l, c)
    }
    fn snippet(&self, p: usize, n: usize) -> String {
        if p == self.chars.len() { return "<end-of-file>".into() }
        let mut s = String::new();
        for c in &self.chars[p..] { if s.len() + c.len_utf8() > n { break } s.push(*c) }
        s
    }
}

/// Applies an operation to the streams and to the model; the difference if any.
fn step<'a>(m: &Model, s: &mut [StrStream<'a>; 2], p: &mut [usize; 2], o: Op) -> Option<String> {
    match o {
        Op::Next(i) => {
            let r = s[i].next();
            let e = m.chars.get(p[i]).copied();
            if e.is_some() { p[i] += 1 }
            if r != e { return Some(format!("next yields {:?} but must yield {:?}", r, e)) }
        }
        Op::Pre(i, k) => {
            let r = s[i].consume_prefix(PREFIXES[k]);
            let e = m.starts(p[i], PREFIXES[k]);
            if e { p[i] += PREFIXES[k].chars().count() }
            if r != e { return Some(format!("consume_prefix({:?}) yields {} but must yield {}", PREFIXES[k], r, e)) }
        }
        Op::Copy(i, j) => { let c = s[i].clone(); s[j] = c; p[j] = p[i]; }
        Op::Skip(i, n) => {
            let r = s[i].by_ref().take(n).count();
            let e = n.min(m.chars.len() - p[i]);
            p[i] += e;
            if r != e { return Some(format!("iterating {} items yields {} but must yield {}", n, r, e)) }
        }
    }
    None
}

fn look<'a>(m: &Model, s: &[StrStream<'a>; 2], p: &[usize; 2]) -> Option<String> {
    for i in 0..2 {
        let (s, p) = (&s[i], p[i]);
        macro_rules! eq { ($a:expr, $b:expr, $w:expr) => { let (a, b) = ($a, $b); if a != b { return Some(format!("{} at character {} is {:?} but must be {:?}", $w, p, a, b)) } } }
        eq!(s.bytes_offset(), m.off[p], "bytes_offset");
        eq!(s.has_next(), p < m.chars.len(), "has_next");
        eq!(s.current_char(), m.chars.get(p).copied(), "current_char");
        eq!(s.line_column(), m.line_col(p), "line_column");
        let (l, c) = m.line_col(p);
        eq!(s.location(), format!("{}:{}", l, c), "location");
        for n in [0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 100] { eq!(s.code_snippet(n), m.snippet(p, n), "code_snippet"); }
    }
    let o = p[0].cmp(&p[1]);
    let (a, b) = (&s[0], &s[1]);
    if (a == b) != (o == Ordering::Equal) || (a != b) == (o == Ordering::Equal) { return Some(format!("== is wrong at {:?}", p)) }
    if a.partial_cmp(b) != Some(o) || a.cmp(b) != o || b.cmp(a) != o.reverse() { return Some(format!("the order is wrong at {:?}", p)) }
    if (a < b) != (o == Ordering::Less) || (a > b) != (o == Ordering::Greater) || (a <= b) != (o != Ordering::Greater) || (a >= b) != (o != Ordering::Less) { return Some(format!("comparison operators are wrong at {:?}", p)) }
    if p[0] <= p[1] {
        let sp = (a.clone()..b.clone()).stream_span();
        if (sp.lo.0 as usize, sp.hi.0 as usize) != (m.off[p[0]], m.off[p[1]]) { return Some(format!("the span between characters {:?} is {}..{}", p, sp.lo.0, sp.hi.0)) }
        if sp != make_span(m.off[p[0]], m.off[p[1]]) { return Some(format!("make_span differs from stream_span at {:?}", p)) }
    }
    None
}

/// The checks of a text at one position after another; each character of Unicode is tried.
fn every_char(shard: usize, shards: usize) -> u64 {
    let mut n = 0;
    let mut bad = 0;
    for c in (0..0x110000u32).filter_map(std::char::from_u32) {
        if (c as usize) % shards != shard { continue }
        let t = format!("{}a{}\n{}b", c, c, c);
        let m = Model::new(&t);
        let one: &'static str = ONES.with(|o| { let mut o = o.borrow_mut(); if o.is_empty() { *o = Box::leak((0..0x110000u32).filter_map(std::char::from_u32).collect::<String>().into_boxed_str()) } let k = offset(c); &o[k..k + c.len_utf8()] });
        let r = guard(|| {
            let start: StrStream = t.as_str().stream();
            let mut s = start.clone();
            for p in 0..m.chars.len() {
                let at = |w: &str| Some(format!("{} at character {} of {:?}", w, p, t));
                if s.bytes_offset() != m.off[p] { return at("wrong bytes_offset") }
                if !s.has_next() { return at("has_next is false") }
                if s.current_char() != Some(m.chars[p]) { return at("wrong current_char") }
                if s.code_snippet(10) != m.snippet(p, 10) { return at("wrong code_snippet") }
                if s.line_column() != m.line_col(p) { return at("wrong line_column") }
                // the prefix made of this character
                let mut a = s.clone();
                let y = a.consume_prefix(one);
                if y != (m.chars[p] == c) || a.bytes_offset() != m.off[p + y as usize] { return at("wrong consume_prefix of the character") }
                if (a > s) != y || (a == s) == y { return at("wrong order") }
                let mut b = s.clone();
                for x in ["a", "b", "\n", "ab", "é", ""] { let mut b = s.clone(); let y = b.consume_prefix(x); if y != m.starts(p, x) || b.bytes_offset() != m.off[p] + if y { x.len() } else { 0 } { return at("wrong consume_prefix") } }
                if b.next() != Some(m.chars[p]) { return at("wrong next") }
                let sp = (start.clone()..b.clone()).stream_span();
                if (sp.lo.0 as usize, sp.hi.0 as usize) != (0, m.off[p + 1]) { return at("wrong span") }
                s = b;
            }
            if s.has_next() || s.next() != None || s.bytes_offset() != t.len() { return Some(format!("wrong end of {:?}", t)) }
            None
        });
        n += m.chars.len() as u64;
        match r { Ok(None) => (), Ok(Some(d)) | Err(d) => { viol(&format!("character {:x}", c as u32), &d); bad += 1; if bad > 5 { break } } }
    }
    n
}
thread_local! { static ONES: std::cell::RefCell<&'static str> = std::cell::RefCell::new("") }
/// Offset of a character in the string of all of them.
fn offset(c: char) -> usize {
    let c = c as usize;
    let size = |lo: usize, hi: usize, k: usize| if c > lo { (c.min(hi) - lo) * k } else { 0 };
    size(0, 0x80, 1) + size(0x80, 0x800, 2) + size(0x800, 0x10000, 3) - if c >= 0xe000 { 0x800 * 3 } else { 0 } + size(0x10000, 0x110000, 4)
}

/// Long texts, with positions around the sizes of every counter.
fn long(shard: usize, shards: usize) -> u64 {
    let mut n = 0;
    let sizes = [7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537];
    for (i, k) in sizes.iter().enumerate() { if i % shards != shard { continue } for (unit, tail) in [("a", "b\na"), ("é", "b\né"), ("\n", "ab"), ("\r\n", "é"), ("𝄞", "b")] {
        let t = unit.repeat(*k) + tail;
        let m = Model::new(&t);
        let mut s: StrStream = t.as_str().stream();
        let first = s.clone();
        let skip = (unit.chars().count() * k).saturating_sub(2);
        s.by_ref().take(skip).count();
        for p in skip..=m.chars.len() {
            n += 1;
            match guard(|| look(&m, &[first.clone(), s.clone()], &[0, p])) { Ok(None) => (), Ok(Some(d)) | Err(d) => { viol(&format!("{:?} {} times then {:?}", unit, k, tail), &d); break } }
            s.next();
        }
        // long prefixes
        let mut prefixes: Vec<String> = vec![];
        let end = *m.off.last().unwrap();
        for p in [0usize, 1] { for q in [m.chars.len(), m.chars.len() - 1, unit.chars().count() * k] { if q > p {
            let w = &t[m.off[p]..m.off[q]];
            prefixes.push(w.to_string());
            prefixes.push(format!("{}a", w));
            let l = w.chars().count();
            for at in [0, l / 2, l - 1, 6, 7, 8, 14, 15, 16, 30, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 256, 510, 511, 512, 1022, 1023, 1024, 4094, 4095, 4096, 32766, 32767, 32768, 65534, 65535, 65536] { if at < l && (at + 40 > l || q == m.chars.len() && p == 0) {
                prefixes.push(w.chars().enumerate().map(|(i, c)| if i == at { if c == 'x' { 'y' } else { 'x' } } else { c }).collect());
            } }
        } } }
        for w in prefixes {
            let w: &'static str = Box::leak(w.into_boxed_str());
            for p in [0usize, 1] {
                let mut s: StrStream = t.as_str().stream();
                for _ in 0..p { s.next(); }
                let yes = t[m.off[p]..].starts_with(w);
                n += 1;
                match guard(|| { let y = s.consume_prefix(w); (y, s.bytes_offset()) }) {
                    Ok(x) if x == (yes, if yes { m.off[p] + w.len() } else { m.off[p] }) => (),
                    x => viol(&format!("{:?} {} times then {:?}, a prefix of {} bytes at {}", unit, k, tail, w.len(), p), &format!("consume_prefix answers {:?}", x)),
                }
            }
            unsafe { drop(Box::from_raw(w as *const str as *mut str)); }
        }
        for p in [0usize, 1] { for h in [127usize, 128, 255, 256, 257, 65535, 65536, 65537, 1 << 20, usize::MAX] {
            let mut s: StrStream = t.as_str().stream();
            for _ in 0..p { s.next(); }
            let mut w = m.off[p].saturating_add(h).min(end);
            while !t.is_char_boundary(w) { w -= 1; }
            n += 1;
            match guard(|| s.code_snippet(h)) { Ok(x) if x == t[m.off[p]..w] => (), x => viol(&format!("{:?} {} times then {:?} at {}", unit, k, tail, p), &format!("code_snippet({}) is {:?} bytes", h, x.map(|x| x.len()))) }
        } }
    } }
    n
}

/// The same buffer with another text: the queries answer for the text which is there.
fn same_buffer(shard: usize, shards: usize) -> u64 {
    let mut n = 0;
    for len in 1..=4 {
        let ws: Vec<String> = words(&["a", "b", "\n"], len).into_iter().filter(|w| w.len() == len).collect();
        let mut buf = vec![b'a'; len];
        for (i, a) in ws.iter().enumerate() {
            if i % shards != shard { continue }
            let ma = Model::new(a);
            for b in &ws { let mb = Model::new(b); for p in 0..=len { for q in 0..=len {
                for (m, w, k) in [(&ma, a, p), (&mb, b, q)] {
                    buf.copy_from_slice(w.as_bytes());
                    let t = std::str::from_utf8(&buf).unwrap();
                    let mut s: StrStream = t.stream();
                    for _ in 0..k { s.next(); }
                    n += 1;
                    let d = if s.line_column() != m.line_col(k) { Some("line_column") } else if s.has_next() != (k < len) { Some("has_next") } else if s.current_char() != m.chars.get(k).copied() { Some("current_char") } else if s.code_snippet(2) != m.snippet(k, 2) { Some("code_snippet") } else if s.clone().consume_prefix("a") != m.starts(k, "a") { Some("consume_prefix") } else if s.next() != m.chars.get(k).copied() { Some("next") } else { None };
                    if let Some(d) = d { viol(&format!("{:?} at {}, in the buffer where {:?} was read at {}", b, q, a, p), &format!("{} is wrong", d)); return n }
                }
            } } }
        }
    }
    n
}

fn main() {
    quiet();
    let (shard, shards, thorough) = args();
    let n = if thorough { 6 } else { 5 };
    let mut texts = words(&["a", "b", "\n", "é", "𝄞"], if thorough { 5 } else { 4 });
    texts.extend(words(&["a", "\n"], n + 2));
    texts.extend(words(&["\r", "\n", "€"], n));
    texts.extend(words(&["a", "é", "€", "𝄞"], n));
    texts.extend(words(&["a", "b"], n + 1));
    texts.extend(words(&["\t", "a", "\n"], n - 1));
    texts.extend(words(&["\0", "a", "\n"], n - 1));
    texts.extend(words(&["\t", "\0", " ", "\u{feff}", "\u{2028}", "\u{85}", "\u{b}", "A", "a", "\u{301}", "\u{200d}"], n - 3));
    let mut seen = HashSet::new();
    texts.retain(|t| seen.insert(t.clone()));
    let mut ops = vec![];
    for i in 0..2 { ops.push(Op::Next(i)); for k in 0..PREFIXES.len() { ops.push(Op::Pre(i, k)) } ops.push(Op::Skip(i, 2)); ops.push(Op::Skip(i, 0)); ops.push(Op::Copy(i, 1 - i)); }
    let (mut states, mut trans, mut traces) = (0u64, 0u64, 0u64);
    for (ti, t) in mine(texts).into_iter().enumerate() {
        let m = Model::new(&t);
        if ti % 50 == 0 { at(&format!("text {:?}", t)) }
        // all the reachable states, every operation in each
        let mut todo = VecDeque::new();
        let mut seen = HashSet::new();
        let as_string = ti % 2 == 0;
        let init = || { let s: StrStream = if as_string { (&t).stream() } else { t.as_str().stream() }; [s.clone(), s] };
        todo.push_back((init(), [0usize, 0], vec![]));
        seen.insert((0, 0, format!("{:?}", init())));
        let mut bad = false;
        while let Some((s, p, path)) = todo.pop_front() {
            states += 1;
            match guard(|| look(&m, &s, &p)) { Ok(None) => (), Ok(Some(d)) | Err(d) => { viol(&format!("{} {:?}", esc(&t), path), &d); bad = true; break } }
            for o in &ops {
                let (mut s2, mut p2) = (s.clone(), p);
                trans += 1;
                match guard(|| step(&m, &mut s2, &mut p2, *o)) { Ok(None) => (), Ok(Some(d)) | Err(d) => { viol(&format!("{} {:?} {:?}", esc(&t), path, o), &d); bad = true; break } }
                if p2[0].max(p2[1]) <= m.chars.len() && seen.insert((p2[0], p2[1], format!("{:?}", s2))) {
                    let mut path = path.clone();
                    path.push(*o);
                    if path.len() < 40 { todo.push_back((s2, p2, path)); }
                }
            }
            if bad { break }
        }
        traces += seen.len() as u64;
        if bad { continue }
        if ti % 300 == 0 { sample(&format!("{:?}: {} states of two cursors", t, seen.len())) }
        // sequences of operations, without merging states
        if m.chars.len() <= 3 || (m.chars.len() == 4 && ti % 20 == 0) {
            let few: Vec<Op> = ops.iter().copied().filter(|o| match o { Op::Next(_) | Op::Copy(..) => true, Op::Pre(_, k) => [1, 6].contains(k), _ => false }).collect();
            let depth = if thorough { 5 } else { 4 };
            let mut ix = vec![0usize; depth];
            'seqs: loop {
                let mut s = init();
                let mut p = [0, 0];
                for k in 0..depth {
                    trans += 1;
                    let r = guard(|| step(&m, &mut s, &mut p, few[ix[k]]).or_else(|| if s[0].bytes_offset() == m.off[p[0]] && s[1].bytes_offset() == m.off[p[1]] { None } else { Some("wrong offsets".to_string()) }));
                    match r { Ok(None) => (), Ok(Some(d)) | Err(d) => { viol(&format!("{} {:?}", esc(&t), ix.iter().take(k + 1).map(|i| few[*i]).collect::<Vec<_>>()), &d); break 'seqs } }
                }
                if let Ok(Some(d)) = guard(|| look(&m, &s, &p)) { viol(&format!("{} {:?}", esc(&t), ix), &d); break }
                traces += 1;
                let mut k = depth;
                loop { if k == 0 { break 'seqs } k -= 1; ix[k] += 1; if ix[k] < few.len() { break } ix[k] = 0; }
            }
        }
    }
    let k = every_char(shard, shards) + long(shard, shards) + same_buffer(shard, shards);
    states += k; trans += k * 6; traces += k;
    stat("states", states);
    stat("transitions", trans);
    stat("traces", traces);
    end();
}
