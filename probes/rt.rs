#![allow(warnings)]
pub mod rt {
    pub use oak_runtime::*;
    pub use std::ops::Range;
    use std::cell::RefCell;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    pub type PS<'a, T> = ParseState<StrStream<'a>, T>;
    pub type Go = fn(&str) -> String;
    #[derive(Clone, Debug, PartialEq)]
    pub struct V(pub String);
    thread_local! { static LOG: RefCell<Vec<String>> = RefCell::new(vec![]); static PANIC: RefCell<String> = RefCell::new(String::new()); }
    pub fn rt_act(name: &str, args: &[&dyn Show]) -> V {
        let mut s = String::from(name);
        s.push('(');
        for (i, a) in args.iter().enumerate() { if i > 0 { s.push(',') } a.show(&mut s); }
        s.push(')');
        LOG.with(|l| l.borrow_mut().push(s.clone()));
        V(s)
    }
    pub fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)) }
    pub fn take_log() -> Vec<String> { LOG.with(|l| std::mem::replace(&mut *l.borrow_mut(), vec![])) }
    pub trait Show { fn show(&self, o: &mut String); }
    pub fn esc(s: &str) -> String { s.chars().flat_map(|c| c.escape_default()).collect() }
    impl Show for () { fn show(&self, o: &mut String) { o.push_str("()") } }
    impl Show for char { fn show(&self, o: &mut String) { o.push('\''); o.extend(self.escape_default()); o.push('\'') } }
    impl Show for V { fn show(&self, o: &mut String) { o.push_str(&self.0) } }
    impl Show for u32 { fn show(&self, o: &mut String) { o.push_str(&self.to_string()) } }
    impl Show for String { fn show(&self, o: &mut String) { o.push_str(&format!("{:?}", self)) } }
    impl<T: Show + ?Sized> Show for Box<T> { fn show(&self, o: &mut String) { o.push('^'); (**self).show(o) } }
    impl<T: Show> Show for Option<T> {
        fn show(&self, o: &mut String) { match self { None => o.push_str("?-"), Some(x) => { o.push_str("?("); x.show(o); o.push(')') } } }
    }
    impl<T: Show> Show for Vec<T> {
        fn show(&self, o: &mut String) { o.push('['); for (i, x) in self.iter().enumerate() { if i > 0 { o.push(',') } x.show(o) } o.push(']') }
    }
    thread_local! { pub static SHIFT: std::cell::Cell<i64> = std::cell::Cell::new(0); }
    pub fn sh(n: usize) -> i64 { n as i64 + SHIFT.with(|s| s.get()) }
    impl Show for Span { fn show(&self, o: &mut String) { o.push_str(&format!("<{}-{}>", sh(self.lo.0 as usize), sh(self.hi.0 as usize))) } }
    /// Offset in bytes of a stream, without the shift.
    pub trait Off { fn off(&self) -> usize; }
    impl<'a> Off for StrStream<'a> { fn off(&self) -> usize { self.bytes_offset() } }
    impl<S: Off> Show for Range<S> {
        fn show(&self, o: &mut String) { o.push_str(&format!("{{{}-{}}}", sh(self.start.off()), sh(self.end.off()))) }
    }
    macro_rules! tup { ($($t:ident)*) => {
        impl<$($t: Show),*> Show for ($($t,)*) {
            #[allow(non_snake_case)]
            fn show(&self, o: &mut String) { let ($(ref $t,)*) = *self; o.push('('); let mut first = true; $( if !first { o.push(',') } first = false; $t.show(o); )* o.push(')') }
        }
    } }
    tup!(A B); tup!(A B C); tup!(A B C D); tup!(A B C D F); tup!(A B C D F G); tup!(A B C D F G H);
    tup!(A B C D F G H I); tup!(A B C D F G H I J); tup!(A B C D F G H I J K); tup!(A B C D F G H I J K L); tup!(A B C D F G H I J K L M);
    //MORE_TUPLES
    pub fn exp(v: &[&'static str]) -> String {
        let mut v: Vec<String> = v.iter().map(|x| esc(x)).collect();
        v.sort();
        v.dedup();
        v.join("\u{1f}")
    }
    /// Position of the state, whether it succeeded, farthest failure, expected items, and its data.
    pub fn st<S: Off + Ord + Clone + HasNext, T: Show>(s: ParseState<S, T>, o: &mut String, val: bool) {
        o.push_str(if s.is_successful() { "1\t" } else { "0\t" });
        o.push_str(&format!("{}\t{}\t{}", sh(s.current.off()), sh(s.farthest_read.off()), exp(&s.expected)));
        if val {
            o.push('\t');
            match (s.is_successful(), &s.data) {
                (true, None) => o.push_str("!success without data"),
                (false, Some(_)) => o.push_str("!failure with data"),
                (false, None) => (),
                (true, Some(_)) => s.unwrap_data().show(o),
            }
        }
    }
    pub fn guard(o: &mut String, f: impl FnOnce(&mut String)) {
        let n = o.len();
        if let Err(_) = catch_unwind(AssertUnwindSafe(|| f(o))) { o.truncate(n); o.push('!'); o.push_str(&PANIC.with(|p| p.borrow().replace('\n', " "))) }
    }
    pub fn obs<'a, T: Show>(i: &'a str, r: fn(PS<'a, ()>) -> PS<'a, ()>, p: fn(PS<'a, ()>) -> PS<'a, T>) -> String {
        let mut o = String::new();
        guard(&mut o, |o| {
            take_log();
            st(r(i.into_state()), o, false);
            let l1 = take_log();
            o.push('\t');
            st(p(i.into_state()), o, true);
            o.push('\t');
            o.push_str(&l1.join(";"));
            o.push('\t');
            o.push_str(&take_log().join(";"));
        });
        o
    }
    /// The same through any stream.
    pub fn obs_on<S: Off + Ord + Clone + HasNext, T: Show>(mk: &dyn Fn() -> ParseState<S, ()>, r: &dyn Fn(ParseState<S, ()>) -> ParseState<S, ()>, p: &dyn Fn(ParseState<S, ()>) -> ParseState<S, T>) -> String {
        let mut o = String::new();
        guard(&mut o, |o| {
            take_log();
            st(r(mk()), o, false);
            let l1 = take_log();
            o.push('\t');
            st(p(mk()), o, true);
            o.push('\t');
            o.push_str(&l1.join(";"));
            o.push('\t');
            o.push_str(&take_log().join(";"));
        });
        o
    }
    /// What into_result and unwrap_data say.
    fn class<'a, T: Show>(s: PS<'a, T>, o: &mut String) {
        let e = |x: &ParseExpectation<StrStream<'a>>| esc(&format!("{:?}", x));
        match s.into_result() {
            ParseResult::Success(d) => { o.push_str("S\t"); d.show(o); o.push('\t') }
            ParseResult::Partial(d, x) => { o.push_str("P\t"); d.show(o); o.push('\t'); o.push_str(&e(&x)) }
            ParseResult::Failure(x) => { o.push_str("F\t\t"); o.push_str(&e(&x)) }
        }
    }
    pub fn results<'a, T: Show>(i: &'a str, r: fn(PS<'a, ()>) -> PS<'a, ()>, p: fn(PS<'a, ()>) -> PS<'a, T>) -> String {
        let mut o = String::new();
        guard(&mut o, |o| {
            class(r(i.into_state()), o);
            o.push('\t');
            class(p(i.into_state()), o);
            o.push('\t');
            let s = p(i.into_state());
            if s.is_successful() { s.unwrap_data().show(o) }
        });
        o
    }
    /// Everything the recognizer and the parser say of a text, messages included.
    fn said<'a, T: Show>(i: &'a str, r: fn(PS<'a, ()>) -> PS<'a, ()>, p: fn(PS<'a, ()>) -> PS<'a, T>) -> String {
        let mut o = String::new();
        take_log();
        st(r(i.into_state()), &mut o, false);
        o.push('\t');
        st(p(i.into_state()), &mut o, true);
        o.push('\t');
        // the order of the expected items is free
        let mut m = String::new();
        class(p(i.into_state()), &mut m);
        o.push_str(m.split(", expecting ").next().unwrap());
        o.push_str(&take_log().join(";"));
        o
    }
    /// A text read in a buffer where another one of the same length was read before, against the text elsewhere.
    fn reused<'a, T: Show>(i: &'a str, r: fn(PS<'a, ()>) -> PS<'a, ()>, p: fn(PS<'a, ()>) -> PS<'a, T>, n: &mut usize) -> Option<String> {
        let base = said(i, r, p);
        let mut buf = i.as_bytes().to_vec();
        // the slices do not outlive the calls, but the functions are already chosen for 'a
        macro_rules! view { ($b:expr) => { unsafe { std::mem::transmute::<&str, &'a str>(std::str::from_utf8($b).unwrap()) } } }
        for k in 0..buf.len() {
            for c in [b'a', b'b', b'\n'] {
                if !i.is_char_boundary(k) || !i.is_char_boundary(k + 1) || i.as_bytes()[k] == c { continue }
                *n += 1;
                buf[k] = c;
                let _ = said(view!(&buf), r, p);
                buf[k] = i.as_bytes()[k];
                let again = said(view!(&buf), r, p);
                if again != base { return Some(format!("{:?}: {:?} but {:?} when {:?} at byte {} was read in the same buffer before", i, base, again, c as char, k)) }
            }
        }
        None
    }
    /// The outcome at every position of the text, after every earlier error, against that on the remaining text alone.
    pub fn indep<'a, T: Show>(i: &'a str, r: fn(PS<'a, ()>) -> PS<'a, ()>, p: fn(PS<'a, ()>) -> PS<'a, T>) -> String {
        type Out = (bool, i64, i64, Vec<String>, String, String);
        fn one<'a, T: Show>(s: PS<'a, ()>, f: fn(PS<'a, ()>) -> PS<'a, T>) -> Out {
            take_log();
            let s = f(s);
            let mut v = String::new();
            let (ok, far) = (s.is_successful(), sh(s.farthest_read.off()));
            let mut e: Vec<String> = s.expected.iter().map(|x| esc(x)).collect();
            e.sort();
            e.dedup();
            let end = if ok { sh(s.current.off()) } else { 0 };
            if let Some(d) = &s.data { d.show(&mut v) }
            (ok, end, far, e, v, take_log().join(";"))
        }
        fn all<'a, T: Show>(i: &'a str, f: fn(PS<'a, ()>) -> PS<'a, T>, what: &str, n: &mut usize) -> Option<String> {
            let mut at: Vec<usize> = i.char_indices().map(|x| x.0).collect();
            at.push(i.len());
            for (k, q) in at.iter().enumerate() {
                SHIFT.with(|s| s.set(*q as i64));
                let base = one(i[*q..].into_state(), f);
                let again = one(i[*q..].into_state(), f);
                SHIFT.with(|s| s.set(0));
                if base != again { return Some(format!("{} run twice on {:?}: {:?} then {:?}", what, &i[*q..], base, again)) }
                let mut to_q: PS<'a, ()> = i.into_state();
                for _ in 0..k { let _: Option<char> = to_q.next(); }
                let mark = to_q.mark();
                for e in 0..at.len() + 2 {
                    *n += 1;
                    let s: PS<'a, ()> = if e == at.len() { ParseState::new(mark.clone()) } else if e == at.len() + 1 { let mut s = i.into_state(); for _ in 0..k { let _: Option<char> = s.next(); } s } else {
                        let mut s: PS<'a, ()> = i.into_state();
                        for _ in 0..e { let _: Option<char> = s.next(); }
                        s.error("earlier");
                        s.restore_from_failure(mark.clone())
                    };
                    let (pf, mut pe) = (s.farthest_read.off() as i64, s.expected.iter().map(|x| x.to_string()).collect::<Vec<_>>());
                    let got = one(s, f);
                    let mut want = base.clone();
                    if base.3.is_empty() || base.2 < pf { want.2 = pf; want.3 = pe } else if base.2 == pf { want.3.append(&mut pe); want.3.sort(); want.3.dedup(); }
                    if got != want { return Some(format!("{} on {:?} from byte {}, {}: {:?} but must be {:?}", what, i, q, if e < at.len() { format!("after an error at byte {}", at[e]) } else { "without earlier error".to_string() }, got, want)) }
                }
            }
            None
        }
        let mut o = String::new();
        guard(&mut o, |o| {
            let mut n = 0;
            match all(i, r, "recognizer", &mut n).or_else(|| all(i, p, "parser", &mut n)).or_else(|| reused(i, r, p, &mut n)) { None => o.push_str(&format!("ok\t{}", n)), Some(d) => o.push_str(&format!("diff\t{}", d.replace('\n', " ").replace('\t', " "))) }
        });
        o
    }
    /// The characters matched when they are the whole text, as intervals; the parser, the position and the value are checked on each.
    pub fn all_chars() -> (&'static str, &'static [(u32, u32)]) {
        use std::sync::OnceLock;
        static ALL: OnceLock<(String, Vec<(u32, u32)>)> = OnceLock::new();
        let a = ALL.get_or_init(|| {
            let (mut s, mut v) = (String::new(), vec![]);
            for c in (0..0x110000).filter_map(std::char::from_u32) { v.push((c as u32, s.len() as u32)); s.push(c); }
            v.push((0, s.len() as u32));
            (s, v)
        });
        (&a.0, &a.1)
    }
    pub fn sweep<T: Show>(r: fn(PS<'static, ()>) -> PS<'static, ()>, p: fn(PS<'static, ()>) -> PS<'static, T>, lo: u32, hi: u32) -> String {
        let mut o = String::new();
        guard(&mut o, |o| {
            let (text, at) = all_chars();
            let mut runs: Vec<(u32, u32)> = vec![];
            let mut bad = String::new();
            for w in at.windows(2) {
                let (c, a, b) = (w[0].0, w[0].1 as usize, w[1].1 as usize);
                if c < lo || c > hi { continue }
                let i: &'static str = &text[a..b];
                let s = r(i.into_state());
                let ok = s.is_successful();
                if ok && s.current.off() != b - a || !ok && (s.farthest_read.off() != 0 || s.expected.len() != 1) { bad = format!("recognizer at {} on {:?}", s.current.off(), i) }
                let s = p(i.into_state());
                if s.is_successful() != ok { bad = format!("parser and recognizer differ on {:?}", i) }
                if ok {
                    if s.current.off() != b - a { bad = format!("parser at {} on {:?}", s.current.off(), i) }
                    let (mut x, mut y) = (String::new(), String::new());
                    s.unwrap_data().show(&mut x);
                    i.chars().next().unwrap().show(&mut y);
                    if x != y && x != "()" { bad = format!("value {} on {:?}", x, i) }
                    match runs.last_mut() { Some(l) if prev(c) == l.1 => l.1 = c, _ => runs.push((c, c)) }
                }
            }
            o.push_str(&format!("{}\t{}", runs.iter().map(|(a, b)| format!("{:x}-{:x}", a, b)).collect::<Vec<_>>().join(" "), bad));
        });
        o
    }
    fn prev(c: u32) -> u32 { if c == 0xe000 { 0xd7ff } else { c.wrapping_sub(1) } }
    //EXTRA
    extern "C" { fn clock() -> i64; fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32; }
    /// Gives the process `secs` seconds of CPU from now on (SIGXCPU afterwards).
    fn budget(secs: u64) {
        unsafe {
            let mut l = [0u64; 2];
            if getrlimit(0, &mut l) != 0 { return }
            l[0] = std::cmp::min((clock() / 1_000_000) as u64 + secs, l[1]);
            setrlimit(0, &l);
        }
    }
    pub fn drive(table: Vec<(usize, usize, Go)>, inputs: &'static [&'static [&'static str]]) {
        use std::io::Write;
        let secs: u64 = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(12);
        std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = format!("panic: {}", i))));
        let h = std::thread::Builder::new().stack_size(400 << 20).spawn(move || {
            let out = std::io::stdout();
            let mut out = out.lock();
            for (id, set, go) in table {
                writeln!(out, "@{}", id).unwrap();
                out.flush().unwrap();
                budget(secs);
                let mut b = String::new();
                for i in inputs[set] { b.push_str(&go(i)); b.push('\n'); }
                out.write_all(b.as_bytes()).unwrap();
            }
            writeln!(out, "@end").unwrap();
            out.flush().unwrap();
        }).unwrap();
        h.join().unwrap();
    }
}
