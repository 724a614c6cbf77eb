//! Minimal JSON value and writer (the driver links nothing but rustc_private).
use std::fmt::Write;
#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, B(bool), N(i128), S(String), A(Vec<J>), O(Vec<(String, J)>) }
impl From<&str> for J { fn from(s: &str) -> J { J::S(s.to_string()) } }
impl From<String> for J { fn from(s: String) -> J { J::S(s) } }
impl From<bool> for J { fn from(s: bool) -> J { J::B(s) } }
impl From<usize> for J { fn from(s: usize) -> J { J::N(s as i128) } }
impl<T: Into<J>> From<Vec<T>> for J { fn from(v: Vec<T>) -> J { J::A(v.into_iter().map(|x| x.into()).collect()) } }
pub fn obj(v: Vec<(&str, J)>) -> J { J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => { let _ = write!(o, "{}", n); }
            J::S(s) => wstr(s, o),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } wstr(k, o); o.push(':'); x.write(o); } o.push('}'); }
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.write(&mut s); s }
}
fn wstr(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
