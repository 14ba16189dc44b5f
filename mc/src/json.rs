//! Just enough JSON.
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Num(f64), Str(String), Arr(Vec<J>), Obj(BTreeMap<String, J>) }
impl J {
    pub fn get(&self, k: &str) -> &J { match self { J::Obj(m) => m.get(k).unwrap_or(&J::Null), _ => &J::Null } }
    pub fn str(&self) -> &str { match self { J::Str(s) => s, _ => "" } }
    pub fn arr(&self) -> &[J] { match self { J::Arr(v) => v, _ => &[] } }
    pub fn num(&self) -> f64 { match self { J::Num(n) => *n, _ => 0.0 } }
    pub fn parse(s: &str) -> Option<J> {
        let b = s.as_bytes();
        let mut p = P { b, i: 0 };
        let v = p.val()?;
        Some(v)
    }
    pub fn text(&self) -> String {
        match self {
            J::Null => "null".into(),
            J::Bool(b) => b.to_string(),
            J::Num(n) => if n.fract() == 0.0 { format!("{}", *n as i64) } else { format!("{}", n) },
            J::Str(s) => quote(s),
            J::Arr(v) => format!("[{}]", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(", ")),
            J::Obj(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", quote(k), v.text())).collect::<Vec<_>>().join(", ")),
        }
    }
}
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
struct P<'a> { b: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() { self.i += 1 } }
    fn val(&mut self) -> Option<J> {
        self.ws();
        match *self.b.get(self.i)? {
            b'{' => {
                self.i += 1;
                let mut m = BTreeMap::new();
                loop {
                    self.ws();
                    if *self.b.get(self.i)? == b'}' { self.i += 1; return Some(J::Obj(m)); }
                    if *self.b.get(self.i)? == b',' { self.i += 1; continue; }
                    let k = self.string()?;
                    self.ws();
                    if *self.b.get(self.i)? != b':' { return None; }
                    self.i += 1;
                    let v = self.val()?;
                    m.insert(k, v);
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if *self.b.get(self.i)? == b']' { self.i += 1; return Some(J::Arr(v)); }
                    if *self.b.get(self.i)? == b',' { self.i += 1; continue; }
                    v.push(self.val()?);
                }
            }
            b'"' => Some(J::Str(self.string()?)),
            b't' => { self.i += 4; Some(J::Bool(true)) }
            b'f' => { self.i += 5; Some(J::Bool(false)) }
            b'n' => { self.i += 4; Some(J::Null) }
            _ => {
                let s = self.i;
                while self.i < self.b.len() && matches!(self.b[self.i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') { self.i += 1 }
                if s == self.i { return None; }
                std::str::from_utf8(&self.b[s..self.i]).ok()?.parse().ok().map(J::Num)
            }
        }
    }
    fn string(&mut self) -> Option<String> {
        if *self.b.get(self.i)? != b'"' { return None; }
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        loop {
            match *self.b.get(self.i)? {
                b'"' => { self.i += 1; return String::from_utf8(o).ok(); }
                b'\\' => {
                    self.i += 1;
                    let c = *self.b.get(self.i)?;
                    self.i += 1;
                    match c {
                        b'n' => o.push(b'\n'), b't' => o.push(b'\t'), b'r' => o.push(b'\r'), b'b' => o.push(8), b'f' => o.push(12),
                        b'u' => {
                            let mut h = u32::from_str_radix(std::str::from_utf8(self.b.get(self.i..self.i + 4)?).ok()?, 16).ok()?;
                            self.i += 4;
                            if (0xd800..0xdc00).contains(&h) && self.b.get(self.i) == Some(&b'\\') {
                                let l = u32::from_str_radix(std::str::from_utf8(self.b.get(self.i + 2..self.i + 6)?).ok()?, 16).ok()?;
                                self.i += 6;
                                h = 0x10000 + ((h - 0xd800) << 10) + (l.wrapping_sub(0xdc00) & 0x3ff);
                            }
                            let mut buf = [0; 4];
                            o.extend(char::from_u32(h).unwrap_or('?').encode_utf8(&mut buf).bytes());
                        }
                        c => o.push(c),
                    }
                }
                c => { o.push(c); self.i += 1 }
            }
        }
    }
}
