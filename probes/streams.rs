    // Streams over characters, written from the documentation of the stream traits only.
    pub struct Text { pub chars: Vec<char>, pub offs: Vec<usize> }
    pub fn text(i: &str) -> &'static Text {
        thread_local! { static CACHE: RefCell<std::collections::HashMap<String, &'static Text>> = RefCell::new(std::collections::HashMap::new()); }
        CACHE.with(|c| *c.borrow_mut().entry(i.to_string()).or_insert_with(|| {
            let mut offs: Vec<usize> = i.char_indices().map(|x| x.0).collect();
            offs.push(i.len());
            Box::leak(Box::new(Text { chars: i.chars().collect(), offs }))
        }))
    }
    thread_local! { pub static TOUCHED: RefCell<std::collections::BTreeSet<usize>> = RefCell::new(Default::default()); }
    fn touch(p: usize) { TOUCHED.with(|t| { t.borrow_mut().insert(p); }) }
    macro_rules! stream_impl { ([$($g:tt)*] $t:ty, $get:expr) => {
        impl<$($g)*> PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.pos == o.pos } }
        impl<$($g)*> Eq for $t {}
        impl<$($g)*> PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(Ord::cmp(self, o)) } }
        impl<$($g)*> Ord for $t { fn cmp(&self, o: &Self) -> std::cmp::Ordering { Ord::cmp(&self.pos, &o.pos) } }
        impl<$($g)*> Iterator for $t { type Item = char; fn next(&mut self) -> Option<char> { let f: fn(&Self) -> &Text = $get; let p = self.pos; let c = f(self).chars.get(p).copied(); touch(f(self).offs[p]); if c.is_some() { self.pos += 1 } c } }
        impl<$($g)*> HasNext for $t { fn has_next(&self) -> bool { let f: fn(&Self) -> &Text = $get; self.pos < f(self).chars.len() } }
        impl<$($g)*> ConsumePrefix<&'static str> for $t { fn consume_prefix(&mut self, s: &'static str) -> bool {
            let f: fn(&Self) -> &Text = $get;
            let v: Vec<char> = s.chars().collect();
            touch(f(self).offs[self.pos]);
            let ok = f(self).chars[self.pos..].starts_with(&v);
            if ok { self.pos += v.len() }
            ok
        } }
        impl<$($g)*> Off for $t { fn off(&self) -> usize { let f: fn(&Self) -> &Text = $get; f(self).offs[self.pos] } }
    } }
    macro_rules! stream_more { ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Location for $t { fn location(&self) -> String { format!("@{}", self.off()) } }
        impl<$($g)*> CodeSnippet for $t { fn code_snippet(&self, n: usize) -> String { format!("..{}", n) } }
    } }
    #[derive(Clone)] pub struct CharStream<'a> { pub text: &'a Text, pub pos: usize }
    stream_impl!(['a] CharStream<'a>, |s| s.text);
    stream_more!(['a] CharStream<'a>);
    impl<'a> Stream for &'a Text { type Output = CharStream<'a>; fn stream(self) -> CharStream<'a> { CharStream { text: self, pos: 0 } } }
    // no lifetime, shared ownership
    #[derive(Clone)] pub struct RcStream { pub text: std::rc::Rc<Text>, pub pos: usize }
    stream_impl!([] RcStream, |s| &s.text);
    stream_more!([] RcStream);
    #[derive(Clone)] pub struct Shared(pub std::rc::Rc<Text>);
    impl Stream for Shared { type Output = RcStream; fn stream(self) -> RcStream { RcStream { text: self.0, pos: 0 } } }
    // a lifetime and type parameters
    pub trait Source { fn text(&self) -> &Text; }
    impl Source for Text { fn text(&self) -> &Text { self } }
    pub struct GenStream<'a, T: Source, U> { pub text: &'a T, pub pos: usize, pub extra: U }
    impl<'a, T: Source, U: Clone> Clone for GenStream<'a, T, U> { fn clone(&self) -> Self { GenStream { text: self.text, pos: self.pos, extra: self.extra.clone() } } }
    stream_impl!(['a, T: Source, U: Clone] GenStream<'a, T, U>, |s| s.text.text());
    stream_more!(['a, T: Source, U: Clone] GenStream<'a, T, U>);
    // the operations of parsing only: no span, no location
    #[derive(Clone)] pub struct BareStream<'a> { pub text: &'a Text, pub pos: usize }
    stream_impl!(['a] BareStream<'a>, |s| s.text);
    // a number, two lifetimes, a type without lifetime
    #[derive(Clone)] pub struct NumStream<'a, const N: usize> { pub text: &'a Text, pub pos: usize }
    stream_impl!(['a, const N: usize] NumStream<'a, N>, |s| s.text);
    stream_more!(['a, const N: usize] NumStream<'a, N>);
    #[derive(Clone)] pub struct TwoStream<'a, 'b> { pub text: &'a Text, pub pos: usize, pub name: &'b str }
    stream_impl!(['a, 'b] TwoStream<'a, 'b>, |s| s.text);
    stream_more!(['a, 'b] TwoStream<'a, 'b>);
    pub struct OwnStream<T> { pub text: std::rc::Rc<T>, pub pos: usize }
    impl<T: Source> Clone for OwnStream<T> { fn clone(&self) -> Self { OwnStream { text: self.text.clone(), pos: self.pos } } }
    stream_impl!([T: Source] OwnStream<T>, |s| s.text.text());
    stream_more!([T: Source] OwnStream<T>);
    /// Logs what is asked to it, among the calls of the actions.
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)] pub struct StepStream<'a>(StrStream<'a>);
    impl<'a> Iterator for StepStream<'a> { type Item = char; fn next(&mut self) -> Option<char> { log(format!("n{}", self.off())); self.0.next() } }
    impl<'a> HasNext for StepStream<'a> { fn has_next(&self) -> bool { self.0.has_next() } }
    impl<'a> ConsumePrefix<&'static str> for StepStream<'a> { fn consume_prefix(&mut self, s: &'static str) -> bool { if !s.is_empty() { log(format!("p{}:{}", self.off(), s)); } self.0.consume_prefix(s) } }
    impl<'a> Off for StepStream<'a> { fn off(&self) -> usize { self.0.off() } }
    pub fn obs_steps<'a, T: Show>(i: &'a str, r: fn(ParseState<StepStream<'a>, ()>) -> ParseState<StepStream<'a>, ()>, p: fn(ParseState<StepStream<'a>, ()>) -> ParseState<StepStream<'a>, T>) -> String {
        let i: &'static str = unsafe { std::mem::transmute(i) };
        obs_on(&|| ParseState::new(StepStream(i.stream())), &|s| r(s), &|s| p(s))
    }
    pub struct MixStream<'a, T: Source, const N: usize> { pub text: &'a T, pub pos: usize }
    impl<'a, T: Source, const N: usize> Clone for MixStream<'a, T, N> { fn clone(&self) -> Self { MixStream { text: self.text, pos: self.pos } } }
    stream_impl!(['a, T: Source, const N: usize] MixStream<'a, T, N>, |s| s.text.text());
    stream_more!(['a, T: Source, const N: usize] MixStream<'a, T, N>);
    type NS = NumStream<'static, 3>;
    pub fn obs_num<T: Show>(i: &str, r: fn(ParseState<NS, ()>) -> ParseState<NS, ()>, p: fn(ParseState<NS, ()>) -> ParseState<NS, T>) -> String { let t = text(i); obs_touch(obs_on(&|| ParseState::new(NumStream { text: t, pos: 0 }), &r, &p)) }
    type TS = TwoStream<'static, 'static>;
    pub fn obs_two<T: Show>(i: &str, r: fn(ParseState<TS, ()>) -> ParseState<TS, ()>, p: fn(ParseState<TS, ()>) -> ParseState<TS, T>) -> String { let t = text(i); obs_touch(obs_on(&|| ParseState::new(TwoStream { text: t, pos: 0, name: "n" }), &r, &p)) }
    type OS = OwnStream<Text>;
    pub fn obs_own<T: Show>(i: &str, r: fn(ParseState<OS, ()>) -> ParseState<OS, ()>, p: fn(ParseState<OS, ()>) -> ParseState<OS, T>) -> String { let t = text(i); let rc = std::rc::Rc::new(Text { chars: t.chars.clone(), offs: t.offs.clone() }); obs_touch(obs_on(&|| ParseState::new(OwnStream { text: rc.clone(), pos: 0 }), &r, &p)) }
    type MS = MixStream<'static, Text, 7>;
    pub fn obs_mix<T: Show>(i: &str, r: fn(ParseState<MS, ()>) -> ParseState<MS, ()>, p: fn(ParseState<MS, ()>) -> ParseState<MS, T>) -> String { let t = text(i); obs_touch(obs_on(&|| ParseState::new(MixStream { text: t, pos: 0 }), &r, &p)) }
    pub fn obs_touch(o: String) -> String {
        let t = TOUCHED.with(|t| std::mem::replace(&mut *t.borrow_mut(), Default::default()));
        let t: Vec<String> = t.into_iter().map(|x| x.to_string()).collect();
        format!("{}\t{}", o, t.join(","))
    }
    pub fn obs_chars<T: Show>(i: &str, r: fn(ParseState<CharStream<'static>, ()>) -> ParseState<CharStream<'static>, ()>, p: fn(ParseState<CharStream<'static>, ()>) -> ParseState<CharStream<'static>, T>) -> String { let t = text(i); obs_touch(obs_on(&|| t.into_state(), &r, &p)) }
    pub fn obs_bare<T: Show>(i: &str, r: fn(ParseState<BareStream<'static>, ()>) -> ParseState<BareStream<'static>, ()>, p: fn(ParseState<BareStream<'static>, ()>) -> ParseState<BareStream<'static>, T>) -> String { let t = text(i); obs_touch(obs_on(&|| ParseState::new(BareStream { text: t, pos: 0 }), &r, &p)) }
    pub fn obs_rc<T: Show>(i: &str, r: fn(ParseState<RcStream, ()>) -> ParseState<RcStream, ()>, p: fn(ParseState<RcStream, ()>) -> ParseState<RcStream, T>) -> String { let t = text(i); let rc = Shared(std::rc::Rc::new(Text { chars: t.chars.clone(), offs: t.offs.clone() })); obs_touch(obs_on(&|| rc.clone().into_state(), &r, &p)) }
    type GS = GenStream<'static, Text, u8>;
    pub fn obs_gen<T: Show>(i: &str, r: fn(ParseState<GS, ()>) -> ParseState<GS, ()>, p: fn(ParseState<GS, ()>) -> ParseState<GS, T>) -> String { let t = text(i); obs_touch(obs_on(&|| ParseState::new(GenStream { text: t, pos: 0, extra: 0u8 }), &r, &p)) }
    // file maps, for C16
    use oak_runtime::file_map_stream::{FileMapStream, FileMap};
    impl<'a> Off for FileMapStream<'a> { fn off(&self) -> usize { (self.clone()..self.clone()).stream_span().lo.0 as usize } }
    pub fn filemap(i: &str, start: u32) -> &'static std::rc::Rc<FileMap> {
        Box::leak(Box::new(std::rc::Rc::new(FileMap { name: "f".into(), abs_path: None, src: Some(std::rc::Rc::new(i.to_string())), start_pos: syntex_pos::BytePos(start), end_pos: syntex_pos::BytePos(start + i.len() as u32), lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]) })))
    }
    type FS = FileMapStream<'static>;
    pub fn obs_file<T: Show>(i: &'static str, r: fn(ParseState<FS, ()>) -> ParseState<FS, ()>, p: fn(ParseState<FS, ()>) -> ParseState<FS, T>) -> String {
        let start = 37 + i.len() as u32;
        let f = filemap(i, start);
        SHIFT.with(|s| s.set(-(start as i64)));
        let o = obs_on(&|| f.into_state(), &r, &p);
        SHIFT.with(|s| s.set(0));
        // the rendered errors are those of the string
        let mut m = String::new();
        guard(&mut m, |m| { match p(f.into_state()).into_result() {
            ParseResult::Success(_) => m.push('S'), ParseResult::Partial(_, e) => m.push_str(&esc(&format!("P{:?}", e))), ParseResult::Failure(e) => m.push_str(&esc(&format!("F{:?}", e))),
        } });
        format!("{}\t{}", o, m)
    }
