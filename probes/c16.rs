// C16: file-map streams against string streams, for every text, start position and operation sequence.
use oak_runtime::*;
use oak_runtime::file_map_stream::*;
use std::cell::RefCell;
use std::collections::{HashSet, VecDeque};
use std::rc::Rc;
use syntex_pos::BytePos;

const PREFIXES: &[&'static str] = &["", "a", "b", "ab", "é", "è", "\n", "\r\n", "𝄞", "aé"];
#[derive(Clone, Copy, Debug)]
enum Op { Next(usize), Pre(usize, usize), Copy(usize, usize) }

fn filemap(text: &str, start: u32) -> Rc<FileMap> {
    Rc::new(FileMap { name: "f".into(), abs_path: None, src: Some(Rc::new(text.to_string())), start_pos: BytePos(start), end_pos: BytePos(start + text.len() as u32), lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]) })
}
fn line_starts(t: &str, start: u32) -> Vec<u32> {
    let mut v = vec![];
    let mut at_start = true;
    for (i, c) in t.char_indices() { if at_start { v.push(start + i as u32) } at_start = c == '\n'; }
    v
}
fn look(f: &[FileMapStream; 2], s: &[StrStream; 2], start: u32) -> Option<String> {
    for i in 0..2 {
        macro_rules! eq { ($a:expr, $b:expr, $w:expr) => { let (a, b) = ($a, $b); if a != b { return Some(format!("{} at byte {} is {:?} but must be {:?}", $w, s[i].bytes_offset(), a, b)) } } }
        eq!(f[i].has_next(), s[i].has_next(), "has_next");
        eq!(f[i].location(), s[i].location(), "location");
        for n in [0, 1, 2, 3, 5, 10, 11] { eq!(f[i].code_snippet(n), s[i].code_snippet(n), "code_snippet"); }
        let sp = (f[i].clone()..f[i].clone()).stream_span();
        let at = start + s[i].bytes_offset() as u32;
        eq!((sp.lo.0, sp.hi.0), (at, at), "the empty span");
    }
    if (f[0] == f[1]) != (s[0] == s[1]) || Ord::cmp(&f[0], &f[1]) != Ord::cmp(&s[0], &s[1]) || PartialOrd::partial_cmp(&f[0], &f[1]) != PartialOrd::partial_cmp(&s[0], &s[1]) || (f[0] < f[1]) != (s[0] < s[1]) || (f[0] > f[1]) != (s[0] > s[1]) || (f[0] <= f[1]) != (s[0] <= s[1]) { return Some("comparisons differ".into()) }
    if s[0] <= s[1] {
        let a = (f[0].clone()..f[1].clone()).stream_span();
        let b = (s[0].clone()..s[1].clone()).stream_span();
        if (a.lo.0, a.hi.0) != (b.lo.0 + start, b.hi.0 + start) || a.expn_id != b.expn_id { return Some(format!("the span is {}..{} but must be {}..{} shifted by {}", a.lo.0, a.hi.0, b.lo.0, b.hi.0, start)) }
    }
    None
}

/// Long texts, at the positions around the sizes of every counter.
fn long(shard: usize, shards: usize) -> u64 {
    let mut n = 0;
    let sizes = [7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537];
    for (i, k) in sizes.iter().enumerate() { if i % shards != shard { continue } for (unit, tail) in [("a", "b\na"), ("é", "b\né"), ("\n", "ab"), ("\r\n", "é"), ("𝄞", "b")] { for start in [0u32, 3, 200, 65_530, 1 << 24] {
        let t = unit.repeat(*k) + tail;
        let fm = filemap(&t, start);
        let key = format!("{:?} {} times then {:?}, from {}", unit, k, tail, start);
        let (f0, s0) = (fm.stream(), t.as_str().stream());
        if fm.lines.borrow().iter().map(|b| b.0).collect::<Vec<_>>() != line_starts(&t, start) { viol(&key, "the lines registered are wrong"); continue }
        let (mut f, mut s) = (f0.clone(), s0.clone());
        let skip = (unit.chars().count() * k).saturating_sub(2);
        if f.by_ref().take(skip).count() != s.by_ref().take(skip).count() { viol(&key, "the characters are not as many"); continue }
        loop {
            n += 1;
            match guard(|| look(&[f0.clone(), f.clone()], &[s0.clone(), s.clone()], start)) { Ok(None) => (), Ok(Some(d)) | Err(d) => { viol(&key, &d); break } }
            let (a, b) = (f.next(), s.next());
            if a != b { viol(&key, &format!("next yields {:?} but must yield {:?}", a, b)); break }
            if a.is_none() { break }
        }
    } } }
    n
}

/// Each character of Unicode.
fn every_char(shard: usize, shards: usize) -> u64 {
    let mut n = 0;
    for c in (0..0x110000u32).filter_map(std::char::from_u32) {
        if (c as usize) % shards != shard { continue }
        let t = format!("{}a{}\n{}b", c, c, c);
        let fm = filemap(&t, 7);
        let d = guard(|| {
            let (mut f, mut s) = (fm.stream(), t.as_str().stream());
            let first = f.clone();
            if fm.lines.borrow().iter().map(|b| b.0).collect::<Vec<_>>() != line_starts(&t, 7) { return Some("the lines registered are wrong".to_string()) }
            loop {
                if f.has_next() != s.has_next() || f.code_snippet(5) != s.code_snippet(5) || f.location() != s.location() { return Some(format!("the file map and the text differ at byte {}", s.bytes_offset())) }
                let sp = (first.clone()..f.clone()).stream_span();
                if (sp.lo.0, sp.hi.0) != (7, 7 + s.bytes_offset() as u32) { return Some(format!("the span ends at {} and not at {}", sp.hi.0, 7 + s.bytes_offset())) }
                let (a, b) = (f.next(), s.next());
                if a != b { return Some(format!("next yields {:?} but must yield {:?}", a, b)) }
                if a.is_none() { return None }
            }
        });
        n += 1;
        match d { Ok(None) => (), Ok(Some(d)) | Err(d) => { viol(&format!("{:?}", t), &d); return n } }
    }
    n
}

fn main() {
    quiet();
    let (shard, shards, thorough) = args();
    let k = thorough as usize;
    let mut texts = words(&["a", "\n", "é"], 4 + k);
    texts.extend(words(&["a", "\n"], 6 + k));
    texts.extend(words(&["\r", "\n", "b"], 4 + k));
    texts.extend(words(&["a", "é", "€", "𝄞"], 4 + k));
    let mut seen = HashSet::new();
    texts.retain(|t| seen.insert(t.clone()));
    let mut ops = vec![];
    for i in 0..2 { ops.push(Op::Next(i)); for j in 0..PREFIXES.len() { ops.push(Op::Pre(i, j)) } ops.push(Op::Copy(i, 1 - i)); }
    let (mut states, mut trans, mut traces) = (0u64, 0u64, 0u64);
    for (ti, t) in mine(texts).into_iter().enumerate() {
        if ti % 50 == 0 { at(&format!("text {:?}", t)) }
        'start: for start in [0u32, 1, 10, 65_536, 1_000_003] {
            if start > 1 && t.chars().count() > 3 && (ti + start as usize) % 3 != 0 { continue }
            let fm = filemap(&t, start);
            let key = format!("{} from {}", esc(&t), start);
            // lines, whoever registered them, are those of the text, once
            for round in 0..3 {
                let r = guard(|| { let _s = fm.stream(); fm.lines.borrow().iter().map(|b| b.0).collect::<Vec<_>>() });
                match r {
                    Ok(l) if l == line_starts(&t, start) => (),
                    Ok(l) => { viol(&key, &format!("the lines registered (stream number {}) are {:?} but must be {:?}", round + 1, l, line_starts(&t, start))); continue 'start }
                    Err(e) => { viol(&key, &e); continue 'start }
                }
            }
            let (f0, s0) = (fm.stream(), t.as_str().stream());
            let mut todo = VecDeque::new();
            let mut seen = HashSet::new();
            let mut n = 0;
            todo.push_back(([f0.clone(), f0], [s0.clone(), s0], vec![]));
            seen.insert((0, 0));
            while let Some((f, s, path)) = todo.pop_front() {
                states += 1;
                n += 1;
                match guard(|| look(&f, &s, start)) { Ok(None) => (), Ok(Some(d)) | Err(d) => { viol(&format!("{} {:?}", key, path), &d); continue 'start } }
                for o in &ops {
                    trans += 1;
                    let (mut f, mut s) = (f.clone(), s.clone());
                    let r = guard(|| match *o {
                        Op::Next(i) => { let (a, b) = (f[i].next(), s[i].next()); if a != b { Some(format!("next yields {:?} but must yield {:?}", a, b)) } else { None } }
                        Op::Pre(i, k) => { let (a, b) = (f[i].consume_prefix(PREFIXES[k]), s[i].consume_prefix(PREFIXES[k])); if a != b { Some(format!("consume_prefix({:?}) yields {:?} but must yield {:?}", PREFIXES[k], a, b)) } else { None } }
                        Op::Copy(i, j) => { f[j] = f[i].clone(); s[j] = s[i].clone(); None }
                    }.or_else(|| look(&f, &s, start)));
                    traces += 1;
                    match r { Ok(None) => (), Ok(Some(d)) | Err(d) => { viol(&format!("{} {:?} {:?}", key, path, o), &d); continue 'start } }
                    if seen.insert((s[0].bytes_offset(), s[1].bytes_offset())) { let mut p = path.clone(); p.push(*o); todo.push_back((f, s, p)); }
                }
            }
            if ti % 100 == 0 && start == 10 { sample(&format!("{:?} from {}: {} states", t, start, n)) }
        }
    }
    let k = long(shard, shards) + every_char(shard, shards);
    states += k; trans += k; traces += k;
    stat("states", states);
    stat("transitions", trans);
    stat("traces", traces);
    end();
}
