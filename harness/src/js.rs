//! A tiny JSON tree used for the recorded traces (not the JSON under test).
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Int(i64),
    Bool(bool),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
    /// a sequence of bytes
    Bytes(Vec<u8>),
}

impl J {
    pub fn s(x: &str) -> J {
        J::Str(x.to_owned())
    }
    pub fn b(x: &[u8]) -> J {
        J::Bytes(x.to_vec())
    }
    pub fn opt(x: Option<J>) -> J {
        J::Arr(x.into_iter().collect())
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Int(i) => {
                assert!(*i >= i32::MIN as i64 && *i <= i32::MAX as i64, "int out of TLC range: {i}");
                write!(out, "{i}").unwrap()
            }
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Str(s) => write_str(s, out),
            J::Arr(xs) => {
                out.push('[');
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(xs) => {
                out.push('{');
                for (i, (k, x)) in xs.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    write_str(k, out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
            J::Bytes(xs) => {
                out.push('[');
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    write!(out, "{x}").unwrap();
                }
                out.push(']');
            }
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            J::Arr(xs) => 1 + xs.iter().map(J::depth).max().unwrap_or(0),
            J::Obj(xs) => 1 + xs.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 1,
        }
    }
    /// The trace reader accepts limited nesting: deeper content is left to be compared through its encoding.
    pub fn shallow(self) -> J {
        if self.depth() > 200 {
            J::Obj(vec![("t", J::s("deep"))])
        } else {
            self
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}

fn write_str(s: &str, out: &mut String) {
    out.push('"');
    for ch in s.chars() {
        match ch {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 > 0x7e => {
                let mut buf = [0u16; 2];
                for u in c.encode_utf16(&mut buf) {
                    write!(out, "\\u{u:04x}").unwrap();
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

#[macro_export]
macro_rules! obj {
    ($($k:literal : $v:expr),* $(,)?) => { $crate::js::J::Obj(vec![$(($k, $v)),*]) };
}
