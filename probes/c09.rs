// C09: rendering of errors and results, for every text, position and set of expectations, against a reference renderer.
use oak_runtime::*;
use std::collections::HashSet;

fn reference(t: &str, pos: usize) -> (String, String) {
    let (mut l, mut c) = (1, 1);
    for b in t[..pos].bytes() { if b == b'\n' { l += 1; c = 1 } else { c += 1 } }
    let rest = &t[pos..];
    let mut s = String::new();
    if rest.is_empty() { s.push_str("<end-of-file>") } else { for ch in rest.chars() { if s.len() + ch.len_utf8() > 10 { break } s.push(ch) } }
    (format!("{}:{}", l, c), s)
}

/// The text is `head` then every item once, in any order.
fn same(text: &str, head: &str, items: &[&'static str]) -> Option<String> {
    let mut want: Vec<&str> = items.to_vec();
    want.sort();
    want.dedup();
    let r = match text.strip_prefix(head) { Some(r) => r, None => return Some(format!("{:?} must start with {:?}", text, head)) };
    let r = match r.strip_suffix('.') { Some(r) => r, None => return Some(format!("{:?} must end with a dot", text)) };
    if want.is_empty() { return if r.is_empty() { None } else { Some(format!("{:?} must expect nothing", text)) } }
    // one separator between any two items
    if want.len() > 6 && !want.iter().any(|x| x.contains("` or `")) {
        let mut got: Vec<&str> = match r.strip_prefix('`').and_then(|r| r.strip_suffix('`')) { Some(r) => r.split("` or `").collect(), None => return Some(format!("{:?} must quote the items", text)) };
        got.sort();
        return if got == want { None } else { Some(format!("{:?} must expect {:?} once each", text, want)) };
    }
    // every order
    fn perm(left: &mut Vec<&str>, done: &str, r: &str) -> bool {
        if left.is_empty() { return done == r }
        if !r.starts_with(done) { return false }
        for i in 0..left.len() {
            let x = left.remove(i);
            let d = if done.is_empty() { format!("`{}`", x) } else { format!("{} or `{}`", done, x) };
            let ok = perm(left, &d, r);
            left.insert(i, x);
            if ok { return true }
        }
        false
    }
    if perm(&mut want.clone(), "", r) { None } else { Some(format!("{:?} must expect {:?} once each", text, want)) }
}

const MANY: &[&'static str] = &["a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8", "a9", "b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "e0", "é1", "é", "e", "a", "", "[\"a-z\"]", "<character>", "or", "0"];

/// The message at a position of a text, and the location, against the reference.
fn at_pos(s: &StrStream, t: &str, pos: usize) -> Option<String> {
    let (loc, snip) = reference(t, pos);
    let want = format!("{}: unexpected `{}`, expecting `x`.", loc, snip);
    match guard(|| format!("{:?}", ParseExpectation::new(s.clone(), vec!["x"]))) { Ok(x) => if x != want { return Some(format!("{:?} but must be {:?}", x, want)) }, Err(e) => return Some(format!("rendering panics: {}", e)) }
    None
}

/// Every character in a line, before and after others.
fn every_char(shard: usize, shards: usize) -> u64 {
    let mut n = 0;
    let mut bad = 0;
    let mut t = String::new();
    for c in (0..0x110000u32).filter_map(std::char::from_u32) {
        if (c as usize) % shards != shard { continue }
        t.clear();
        t.push('a'); t.push(c); t.push_str("b\n"); t.push(c);
        let mut s: StrStream = t.as_str().stream();
        let mut pos = 0;
        for x in 0..=t.chars().count() {
            if x > 0 { n += 1; if let Some(d) = at_pos(&s, &t, pos) { viol(&format!("{:?} at byte {}", t, pos), &d); bad += 1; break } }
            if let Some(k) = t[pos..].chars().next() { pos += k.len_utf8() }
            s.next();
        }
        if bad > 5 { break }
    }
    n
}

/// Texts put one after the other in the same buffer: each is rendered as if it was alone.
fn same_buffer(shard: usize, shards: usize, thorough: bool) -> u64 {
    let mut n = 0;
    for len in 1..=(if thorough { 6 } else { 5 }) {
        let ws: Vec<String> = words(&["a", "\n"], len).into_iter().filter(|w| w.len() == len).collect();
        let mut buf = vec![b'a'; len];
        for (i, a) in ws.iter().enumerate() {
            if i % shards != shard { continue }
            for b in &ws { for p in 0..=len { for q in 0..=len {
                for (w, k) in [(a, p), (b, q)] {
                    buf.copy_from_slice(w.as_bytes());
                    let t = std::str::from_utf8(&buf).unwrap();
                    let mut s: StrStream = t.stream();
                    for _ in 0..k { s.next(); }
                    n += 1;
                    if let Some(d) = at_pos(&s, t, k) { viol(&format!("{:?} at byte {}, in the buffer where {:?} was read at byte {}", b, q, a, p), &d); return n }
                }
            } } }
        }
    }
    n
}

/// Two positions of a text, one after the other: no query depends on the ones before.
fn two_queries(t: &str) -> Option<String> {
    let mut at: Vec<usize> = t.char_indices().map(|x| x.0).collect();
    at.push(t.len());
    let st: Vec<StrStream> = (0..at.len()).map(|k| { let mut s: StrStream = t.stream(); for _ in 0..k { s.next(); } s }).collect();
    for (i, p) in at.iter().enumerate() { for (j, q) in at.iter().enumerate() {
        if let Some(d) = at_pos(&st[i], t, *p).or_else(|| at_pos(&st[j], t, *q)) { return Some(format!("at byte {} then {}: {}", p, q, d)) }
    } }
    None
}

fn main() {
    quiet();
    let (shard, shards, thorough) = args();
    let k = thorough as usize;
    let mut texts = words(&["a", "\n", "\r", "é"], 5 + k);
    texts.extend(words(&["a", "é", "€", "𝄞"], 6 + k));
    texts.extend(words(&["\r\n", "a", "\n"], 5 + k));
    for pad in 0..12 { for w in words(&["a", "é", "\n", "𝄞"], 3) { texts.push(format!("{}{}", "x".repeat(pad), w)); texts.push(format!("{}{}zz", "x".repeat(pad), w)); texts.push(format!("{}\r\n{}", w, "y".repeat(pad))) } }
    texts.extend(words(&["\t", "a", "\n"], 4 + k));
    texts.extend(words(&["\0", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{feff}", "\n", "a", " ", "\\", "\"", "`"], 2 + k));
    let mut seen = HashSet::new();
    texts.retain(|t| seen.insert(t.clone()));
    let sets: Vec<Vec<&'static str>> = vec![vec![], vec!["a"], vec!["<character>"], vec!["a", "b"], vec!["a", "a"], vec!["[\"0-9\"]", "(", "a or b"], vec!["é", "𝄞", "é", "€"], vec![""], vec!["a", "b", "c", "d", "a", "b"], vec!["\n", "`"], vec!["a"; 40], vec!["a", "a ", " a", "A", "\t", "a\0"], vec!["0123456789012345678901234567890123456789", "x"], MANY[..9].to_vec(), MANY[..17].to_vec(), MANY.to_vec(), MANY.iter().chain(MANY.iter().rev()).copied().collect()];
    let (mut states, mut trans, mut traces) = (0u64, 0u64, 0u64);
    for (ti, t) in mine(texts).into_iter().enumerate() {
        if ti % 100 == 0 { at(&format!("text {:?}", t)) }
        let mut s = t.as_str().stream();
        let n = t.chars().count();
        let mut bad = false;
        for p in 0..=n {
            let pos: usize = t.chars().take(p).map(|c| c.len_utf8()).sum();
            let (loc, snip) = reference(&t, pos);
            states += 1;
            let head = format!("{}: unexpected `{}`, expecting ", loc, snip);
            for (si, set) in sets.iter().enumerate() {
                if si > 2 && (si + ti) % 3 != 0 && n > 4 { continue }
                trans += 1;
                let key = format!("{:?} at byte {} expecting {:?}", t, pos, set);
                let mk = || ParseExpectation::new(s.clone(), set.clone());
                macro_rules! check { ($v:expr, $pre:expr) => { traces += 1; match guard(|| format!("{:?}", $v)) { Ok(x) => if let Some(d) = same(&x, &format!("{}{}", $pre, head), set) { viol(&key, &d); bad = true }, Err(e) => { viol(&key, &format!("rendering panics: {}", e)); bad = true } } } }
                check!(mk(), "");
                check!(ParseResult::Failure::<_, u32>(mk()), "Error:\n\t");
                check!(ParseResult::Partial('x', mk()), "Partial match, got data `'x'`. It stopped because:\n\t");
                // through a parse state
                let mut st: ParseState<StrStream, char> = t.as_str().into_state();
                st.current = s.clone();
                for e in set { st.error(e) }
                if !set.is_empty() { let r = guard(|| st.failure::<char>().into_result()); match r { Ok(r) => { check!(r, "Error:\n\t"); } Err(e) => { viol(&key, &e); bad = true } } }
                match guard(|| mk().expected_items()) { Ok(x) => if let Some(d) = same(&format!("{}.", x), "", set) { viol(&key, &format!("expected_items: {}", d)); bad = true }, Err(e) => { viol(&key, &format!("expected_items panics: {}", e)); bad = true } }
                if bad { break }
            }
            if bad { break }
            s.next();
        }
        if !bad && n < 5 { trans += 1; if let Some(d) = two_queries(&t) { viol(&format!("{:?}", t), &d) } }
        if ti % 900 == 0 { sample(&format!("{:?}: {} positions", t, n + 1)) }
    }
    if format!("{:?}", ParseResult::Success::<StrStream, _>(vec![1, 2])) != "Full match, got data `[1, 2]`." { viol("Success", "wrong rendering of a full match") }
    // long lines and many lines: the sizes of every counter
    let sizes: Vec<usize> = (0..40).chain([63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538]).collect();
    for (i, n) in sizes.iter().enumerate() { if i % shards != shard { continue } for (unit, tail) in [("x", "y\nz"), ("é", "y\né"), ("\n", "yz"), ("x\n", "yz"), ("\r\n", "é"), ("\t", "\tz\n")] {
        let t = unit.repeat(*n) + tail;
        let k = unit.chars().count() * n;
        let mut s: StrStream = t.stream();
        s.by_ref().take(k.saturating_sub(1)).count();
        let mut pos = if k == 0 { 0 } else { unit.len() * n - unit.chars().last().unwrap().len_utf8() };
        for _ in 0..tail.chars().count() + 2 {
            traces += 1; states += 1;
            if let Some(d) = at_pos(&s, &t, pos) { viol(&format!("{:?} {} times then {:?}, at byte {}", unit, n, tail, pos), &d); break }
            if let Some(c) = t[pos..].chars().next() { pos += c.len_utf8(); s.next(); }
        }
    } }
    let n = every_char(shard, shards) + same_buffer(shard, shards, thorough);
    states += n; traces += n; trans += n;
    stat("states", states);
    stat("transitions", trans);
    stat("traces", traces);
    end();
}
