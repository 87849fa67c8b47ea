//! JSON documents: an independent reader into trace nodes, document generation and the recorded events.
use crate::{js::J, msg::*, obj, rng::Rng, val::*};
use prost_reflect::*;

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<N>),
    Obj(Vec<(String, N)>),
}

pub enum Bad {
    /// not JSON
    Syntax,
    /// a case the properties do not settle
    Odd,
}

// ---- reading ----
struct P<'a> {
    b: &'a [u8],
    i: usize,
}

pub fn parse(s: &str) -> Result<N, Bad> {
    let mut p = P { b: s.as_bytes(), i: 0 };
    let n = p.value(0)?;
    p.ws();
    if p.i == p.b.len() {
        Ok(n)
    } else {
        Err(Bad::Syntax)
    }
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && b" \t\r\n".contains(&self.b[self.i]) {
            self.i += 1
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn word(&mut self, w: &str, n: N) -> Result<N, Bad> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(n)
        } else {
            Err(Bad::Syntax)
        }
    }
    fn value(&mut self, d: usize) -> Result<N, Bad> {
        if d > 60 {
            return Err(Bad::Odd);
        }
        self.ws();
        match self.peek() {
            b'n' => self.word("null", N::Null),
            b't' => self.word("true", N::Bool(true)),
            b'f' => self.word("false", N::Bool(false)),
            b'"' => Ok(N::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(N::Arr(v));
                }
                loop {
                    v.push(self.value(d + 1)?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(N::Arr(v));
                        }
                        _ => return Err(Bad::Syntax),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(N::Obj(v));
                }
                loop {
                    self.ws();
                    if self.peek() != b'"' {
                        return Err(Bad::Syntax);
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' {
                        return Err(Bad::Syntax);
                    }
                    self.i += 1;
                    let x = self.value(d + 1)?;
                    v.push((k, x));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(N::Obj(v));
                        }
                        _ => return Err(Bad::Syntax),
                    }
                }
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                if self.peek() == b'-' {
                    self.i += 1;
                }
                match self.peek() {
                    b'0' => self.i += 1,
                    b'1'..=b'9' => self.digits(),
                    _ => return Err(Bad::Syntax),
                }
                if self.peek() == b'.' {
                    self.i += 1;
                    if !self.peek().is_ascii_digit() {
                        return Err(Bad::Syntax);
                    }
                    self.digits()
                }
                if matches!(self.peek(), b'e' | b'E') {
                    self.i += 1;
                    if matches!(self.peek(), b'+' | b'-') {
                        self.i += 1;
                    }
                    if !self.peek().is_ascii_digit() {
                        return Err(Bad::Syntax);
                    }
                    self.digits()
                }
                Ok(N::Num(std::str::from_utf8(&self.b[st..self.i]).unwrap().to_string()))
            }
            _ => Err(Bad::Syntax),
        }
    }
    fn digits(&mut self) {
        while self.peek().is_ascii_digit() {
            self.i += 1
        }
    }
    fn hex4(&mut self) -> Result<u32, Bad> {
        let s = self.b.get(self.i..self.i + 4).ok_or(Bad::Syntax)?;
        if !s.iter().all(|c| c.is_ascii_hexdigit()) {
            return Err(Bad::Syntax);
        }
        self.i += 4;
        Ok(u32::from_str_radix(std::str::from_utf8(s).unwrap(), 16).unwrap())
    }
    fn string(&mut self) -> Result<String, Bad> {
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i).ok_or(Bad::Syntax)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|_| Bad::Syntax),
                0..=0x1f => return Err(Bad::Syntax),
                b'\\' => {
                    let e = *self.b.get(self.i).ok_or(Bad::Syntax)?;
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => out.push(e),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'n' => out.push(10),
                        b'r' => out.push(13),
                        b't' => out.push(9),
                        b'u' => {
                            let mut c = self.hex4()?;
                            if (0xd800..0xdc00).contains(&c) {
                                if self.b.get(self.i..self.i + 2) != Some(b"\\u") {
                                    return Err(Bad::Odd);
                                }
                                self.i += 2;
                                let l = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&l) {
                                    return Err(Bad::Odd);
                                }
                                c = 0x10000 + ((c - 0xd800) << 10) + (l - 0xdc00);
                            }
                            let ch = char::from_u32(c).ok_or(Bad::Odd)?;
                            let mut b = [0; 4];
                            out.extend(ch.encode_utf8(&mut b).as_bytes());
                        }
                        _ => return Err(Bad::Syntax),
                    }
                }
                c => out.push(c),
            }
        }
    }
}

fn le8(x: f64) -> J {
    if x.is_finite() {
        J::b(&x.to_bits().to_le_bytes())
    } else {
        J::Arr(vec![])
    }
}
fn le4(x: f32) -> J {
    if x.is_finite() {
        J::b(&x.to_bits().to_le_bytes())
    } else {
        J::Arr(vec![])
    }
}

/// The trace node of a document; None when it contains something the properties leave open.
pub fn node(n: &N) -> Option<J> {
    Some(match n {
        N::Null => obj! {"j": J::s("null")},
        N::Bool(b) => obj! {"j": J::s("bool"), "b": J::Bool(*b)},
        N::Num(t) => {
            let d: f64 = t.parse().ok()?;
            if !d.is_finite() {
                return None;
            }
            let u = t.parse::<u64>().ok();
            let i = t.parse::<i64>().ok();
            let pl = t != "-0" && (u.is_some() || i.is_some()) && !t.contains(['.', 'e', 'E']);
            let f = if pl {
                match (u, i) {
                    (Some(u), _) => u as f32,
                    (_, Some(i)) => i as f32,
                    _ => unreachable!(),
                }
            } else {
                d as f32
            };
            let iv = if pl {
                vec![J::b(t.as_bytes())]
            } else if d == 0.0 {
                vec![J::b(b"0")]
            } else if d.fract() == 0.0 {
                vec![J::b(format!("{d:.0}").as_bytes())]
            } else {
                vec![]
            };
            obj! {"j": J::s("num"), "d": le8(d), "f": le4(f), "iv": J::Arr(iv), "pl": J::Bool(pl)}
        }
        N::Str(s) => {
            let fw = match s.parse::<f64>() {
                Ok(d) => vec![le8(d), le4(s.parse::<f32>().unwrap_or(f32::NAN))],
                Err(_) => vec![],
            };
            obj! {"j": J::s("str"), "s": J::b(s.as_bytes()), "fw": J::Arr(fw)}
        }
        N::Arr(a) => obj! {"j": J::s("arr"), "a": J::Arr(a.iter().map(node).collect::<Option<_>>()?)},
        N::Obj(o) => {
            obj! {"j": J::s("obj"), "o": J::Arr(o.iter().map(|(k, v)| Some(J::Arr(vec![J::b(k.as_bytes()), node(v)?]))).collect::<Option<_>>()?)}
        }
    })
}

/// Spellings of numbers in strings on which the mapping is silent, and members that may denote the same field.
fn odd(n: &N) -> bool {
    match n {
        N::Str(s) => odd_number(s),
        N::Arr(a) => a.iter().any(odd),
        N::Obj(o) => {
            let mut ks: Vec<String> = o.iter().map(|(k, _)| k.chars().filter(|c| *c != '_').collect::<String>().to_lowercase()).collect();
            ks.sort();
            let n = ks.len();
            ks.dedup();
            ks.len() != n || o.iter().any(|(k, v)| odd_number(k) || odd(v))
        }
        _ => false,
    }
}
fn odd_number(s: &str) -> bool {
    let t = s.strip_prefix('-').unwrap_or(s);
    let canon = (t == "0" && s == "0") || (!t.is_empty() && !t.starts_with('0') && t.bytes().all(|c| c.is_ascii_digit()));
    if canon || s == "NaN" || s == "Infinity" || s == "-Infinity" {
        return false;
    }
    // Rust's number readers take more spellings
    s.parse::<i128>().is_ok() || s.parse::<f64>().is_ok_and(|d| !d.is_finite() || s.starts_with('+') || d.fract() == 0.0)
}

// ---- writing, with free layout ----
pub fn print(n: &N, r: &mut Rng, free: bool) -> String {
    let mut s = String::new();
    emit(n, r, free, &mut s);
    s
}
fn sp(r: &mut Rng, free: bool, out: &mut String) {
    if free && r.pct(15) {
        out.push_str(*r.pick(&[" ", "\n", "\t", "\r\n ", "  "]));
    }
}
fn emit_str(s: &str, r: &mut Rng, free: bool, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        let esc = free && r.pct(8);
        match c {
            '"' if !esc => out.push_str("\\\""),
            '\\' if !esc => out.push_str("\\\\"),
            '\n' if !esc => out.push_str("\\n"),
            '/' if free && r.pct(30) => out.push_str("\\/"),
            '\u{8}' if !esc => out.push_str("\\b"),
            '\u{c}' if !esc => out.push_str("\\f"),
            '\r' if !esc => out.push_str("\\r"),
            '\t' if !esc => out.push_str("\\t"),
            c if esc || (c as u32) < 0x20 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&if r.pct(50) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
fn emit(n: &N, r: &mut Rng, free: bool, out: &mut String) {
    sp(r, free, out);
    match n {
        N::Null => out.push_str("null"),
        N::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        N::Num(t) => out.push_str(t),
        N::Str(s) => emit_str(s, r, free, out),
        N::Arr(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                emit(x, r, free, out);
            }
            sp(r, free, out);
            out.push(']');
        }
        N::Obj(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                sp(r, free, out);
                emit_str(k, r, free, out);
                sp(r, free, out);
                out.push(':');
                emit(x, r, free, out);
            }
            sp(r, free, out);
            out.push('}');
        }
    }
    sp(r, free, out);
}

// ---- generating documents for a message type ----
fn num(s: impl ToString) -> N {
    N::Num(s.to_string())
}
fn st(s: impl ToString) -> N {
    N::Str(s.to_string())
}
const B64S: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub struct Doc<'a> {
    pub g: &'a mut Gen,
    /// percent of deliberately wrong parts
    pub wrong: u64,
}

impl Doc<'_> {
    fn pct(&mut self, p: u64) -> bool {
        self.g.r.pct(p)
    }
    fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        self.g.r.pick(xs).clone()
    }
    pub fn junk(&mut self, d: u32) -> N {
        match self.g.r.below(if d == 0 { 6 } else { 8 }) {
            0 => N::Null,
            1 => N::Bool(self.pct(50)),
            2 => self.number(),
            3 => st(self.g.string()),
            4 => st(self.pick(&["1", "-1", "0", "true", "NaN", "Infinity", "-Infinity", "1.5", "2147483648", "18446744073709551616", "E_ONE", "AA==", "NULL_VALUE", "1s", "1970-01-01T00:00:00Z", "x"])),
            5 => num(self.pick(&["0", "1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
                "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e400", "-0", "0.5", "1.5e300", "1e-400", "3.5e38", "2147483647.0", "2147483648.0", "4294967296.0", "9223372036854774784.0", "18446744073709551616.0", "1.8446744073709550e19"])),
            6 => N::Arr((0..self.g.r.below(3)).map(|_| self.junk(d - 1)).collect()),
            _ => {
                let n = self.g.r.below(3);
                let ks = ["a", "bc", "@typ", "x", "value", ""];
                let s = self.g.r.below(6);
                N::Obj((0..n).map(|i| (ks[(s + i) % 6].to_string(), self.junk(d - 1))).collect())
            }
        }
    }
    fn number(&mut self) -> N {
        match self.g.r.below(5) {
            0 => num(self.g.u64() as i64),
            1 => num(self.g.u64()),
            2 => num(self.g.r.range(-1000, 1000)),
            _ => self.float(),
        }
    }
    fn float(&mut self) -> N {
        loop {
            let x = if self.pct(50) { self.g.f64() } else { self.g.f32() as f64 };
            if x.is_finite() {
                let t = match self.g.r.below(4) {
                    0 => format!("{x:e}"),
                    1 => format!("{x:E}"),
                    2 if x.abs() < 1e25 && x.abs() > 1e-15 => format!("{x}"),
                    3 if x.abs() < 1e15 => format!("{x:.6}"),
                    _ => format!("{x:?}"),
                };
                return N::Num(t);
            }
        }
    }
    fn int(&mut self, v: i128) -> N {
        match self.g.r.below(10) {
            0..=4 => num(v),
            5..=7 => st(v),
            8 => num(format!("{v}.0")),
            _ => {
                // an exponent that leaves it integral
                let mut m = v;
                let mut e = 0;
                while m != 0 && m % 10 == 0 {
                    m /= 10;
                    e += 1;
                }
                match self.g.r.below(3) {
                    0 => num(format!("{m}e{e}")),
                    1 => num(format!("{m}E+{e}")),
                    _ => num(format!("{v}0e-1")),
                }
            }
        }
    }
    fn scalar(&mut self, k: &Kind) -> N {
        match k {
            Kind::Double | Kind::Float => match self.g.r.below(8) {
                0 => st(self.pick(&["NaN", "Infinity", "-Infinity"])),
                1 | 2 => match self.float() {
                    N::Num(t) => N::Str(t),
                    x => x,
                },
                3 => num(self.g.r.range(-100000, 100000)),
                4 => num(self.g.u64()),
                _ => {
                    if *k == Kind::Float && self.pct(70) {
                        let x = loop {
                            let x = self.g.f32();
                            if x.is_finite() {
                                break x;
                            }
                        };
                        num(if self.pct(50) { format!("{x:?}") } else { format!("{x:e}") })
                    } else {
                        self.float()
                    }
                }
            },
            Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => {
                let v = self.g.u32() as i32 as i128 + if self.pct(self.wrong / 2) { self.pick(&[1i128 << 31, -(1i128 << 31)]) } else { 0 };
                self.int(v)
            }
            Kind::Uint32 | Kind::Fixed32 => {
                let v = self.g.u32() as i128 + if self.pct(self.wrong / 2) { self.pick(&[1i128 << 32, -(1i128 << 31)]) } else { 0 };
                self.int(v)
            }
            Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => {
                let v = self.g.u64() as i64 as i128 + if self.pct(self.wrong / 2) { self.pick(&[1i128 << 63, -(1i128 << 63)]) } else { 0 };
                self.int(v)
            }
            Kind::Uint64 | Kind::Fixed64 => {
                let v = self.g.u64() as i128 + if self.pct(self.wrong / 2) { self.pick(&[1i128 << 64, -(1i128 << 63)]) } else { 0 };
                self.int(v)
            }
            Kind::Bool => N::Bool(self.pct(50)),
            Kind::String => st(self.g.string()),
            Kind::Bytes => st(self.base64()),
            Kind::Enum(e) => {
                if e.full_name() == "google.protobuf.NullValue" {
                    return if self.pct(50) { N::Null } else { st("NULL_VALUE") };
                }
                let vs: Vec<_> = e.values().collect();
                let v = self.g.r.pick(&vs).clone();
                match self.g.r.below(10) {
                    0..=5 => st(v.name()),
                    6 | 7 => num(v.number()),
                    8 => num(self.g.u32() as i32),
                    _ => {
                        if self.pct(self.wrong * 3) {
                            st(self.pick(&["NOPE", "e_one", "", "0", "E_ZERO ", "1"]))
                        } else {
                            st(v.name())
                        }
                    }
                }
            }
            Kind::Message(_) => unreachable!(),
        }
    }
    fn base64(&mut self) -> String {
        let b = self.g.bytes();
        let url = self.pct(30);
        let pad = self.g.r.below(3);
        let al: Vec<u8> = B64S.bytes().map(|c| if url && c == b'+' { b'-' } else if url && c == b'/' { b'_' } else { c }).collect();
        let mut s = String::new();
        for ch in b.chunks(3) {
            let x = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
            for i in 0..=ch.len() {
                let mut v = (x >> (18 - 6 * i)) & 63;
                if i == ch.len() && ch.len() < 3 && self.pct(10) {
                    // bits beyond the last byte
                    v |= 1
                }
                s.push(al[v as usize] as char);
            }
            for i in ch.len()..3 {
                if pad == 0 || (pad == 1 && i == ch.len()) {
                    s.push('=')
                }
            }
        }
        if self.pct(self.wrong) {
            match self.g.r.below(5) {
                0 => s.push('='),
                1 => s.push(self.pick(&['A', '-', '/', '+', '_', '*', ' '])),
                2 => {
                    s.pop();
                }
                3 => s.insert(0, '='),
                _ => s.insert(s.len() / 2, self.pick(&['\n', ' ', '-', '+', '.'])),
            }
        }
        s
    }
    fn element(&mut self, k: &Kind, d: u32) -> N {
        if self.pct(self.wrong / 2) {
            return self.junk(1);
        }
        match k {
            Kind::Message(m) => self.message(m, d),
            _ => self.scalar(k),
        }
    }
    pub fn field(&mut self, f: &Fd, d: u32) -> N {
        if self.pct(self.wrong) {
            return self.junk(2);
        }
        if self.pct(6) {
            return N::Null;
        }
        if f.is_list() {
            let n = self.g.r.below(4);
            N::Arr((0..n).map(|_| if self.pct(self.wrong / 3) { N::Null } else { self.element(&f.kind(), d) }).collect())
        } else if f.is_map() {
            let k = f.kind();
            let m = k.as_message().unwrap().clone();
            let (kk, vk) = (m.map_entry_key_field().kind(), m.map_entry_value_field().kind());
            let n = self.g.r.below(4);
            let mut o: Vec<(String, N)> = vec![];
            for _ in 0..n {
                let key = match &kk {
                    Kind::Bool => self.pick(&["true", "false"]).to_string(),
                    Kind::String => self.g.string(),
                    k => match self.g.map_key(k) {
                        MapKey::I32(x) => x.to_string(),
                        MapKey::I64(x) => x.to_string(),
                        MapKey::U32(x) => x.to_string(),
                        MapKey::U64(x) => x.to_string(),
                        _ => unreachable!(),
                    },
                };
                let key = if kk != Kind::String && self.pct(self.wrong) { self.pick(&["", "x", "-1", "4294967296", "9223372036854775808", "1.0", " 1", "True", "-18446744073709551615"]).to_string() } else { key };
                if !o.iter().any(|e| e.0 == key) {
                    let v = if self.pct(self.wrong / 3) { N::Null } else { self.element(&vk, d) };
                    o.push((key, v));
                }
            }
            N::Obj(o)
        } else {
            self.element(&f.kind(), d)
        }
    }
    pub fn message(&mut self, m: &MessageDescriptor, d: u32) -> N {
        let d1 = d.saturating_sub(1);
        match m.full_name() {
            "google.protobuf.Timestamp" => st(self.timestamp()),
            "google.protobuf.Duration" => st(self.duration()),
            "google.protobuf.FieldMask" => st(self.mask()),
            "google.protobuf.Empty" => N::Obj(vec![]),
            "google.protobuf.Value" => self.any_json(d),
            "google.protobuf.ListValue" => N::Arr((0..self.g.r.below(4)).map(|_| self.any_json(d1)).collect()),
            "google.protobuf.Struct" => self.any_obj(d1),
            "google.protobuf.Any" => self.any(m, d),
            n if n.starts_with("google.protobuf.") && n.ends_with("Value") => {
                let k = m.get_field(1).unwrap().kind();
                self.scalar(&k)
            }
            _ => N::Obj(self.members(m, d)),
        }
    }
    fn members(&mut self, m: &MessageDescriptor, d: u32) -> Vec<(String, N)> {
        let mut fs = Fd::all(m);
        self.g.r.shuffle(&mut fs);
        let n = if d == 0 { self.g.r.below(2) } else { self.g.r.below(5) };
        let mut o: Vec<(String, N)> = vec![];
        let mut oneofs: Vec<String> = vec![];
        for f in fs.into_iter().take(n) {
            if d == 0 && matches!(f.kind(), Kind::Message(_)) && !self.pct(20) {
                continue;
            }
            let (json, name) = match &f {
                Fd::F(f) => {
                    if let Some(x) = f.containing_oneof() {
                        if oneofs.iter().any(|y| y == x.full_name()) && !self.pct(15) {
                            continue;
                        }
                        oneofs.push(x.full_name().to_string());
                    }
                    (f.json_name().to_string(), f.name().to_string())
                }
                Fd::X(x) => (x.json_name().to_string(), x.json_name().to_string()),
            };
            let key = if self.pct(30) { name } else { json };
            if o.iter().any(|e| e.0 == key) {
                continue;
            }
            let v = self.field(&f, d.saturating_sub(1));
            o.push((key, v));
        }
        if self.pct(self.wrong) {
            let k = self.pick(&["nope", "", "I32", "i_32", "[v.k2.nope]", "v.k2.xi", "[v.k2.Base]", "[]", "[v.k2.xi", "@type", "foo-bar", "xi"]);
            if !o.iter().any(|e| e.0 == k) && m.get_field_by_name(k).is_none() {
                let v = self.junk(2);
                let i = self.g.r.below(o.len() + 1);
                o.insert(i, (k.to_string(), v));
            }
        }
        o
    }
    fn any_obj(&mut self, d: u32) -> N {
        let n = self.g.r.below(4);
        let mut o: Vec<(String, N)> = vec![];
        for _ in 0..n {
            let k = self.g.string();
            if !o.iter().any(|e| e.0 == k) {
                let v = self.any_json(d);
                o.push((k, v));
            }
        }
        N::Obj(o)
    }
    fn any_json(&mut self, d: u32) -> N {
        match self.g.r.below(if d == 0 { 4 } else { 7 }) {
            0 => N::Null,
            1 => N::Bool(self.pct(50)),
            2 => self.number(),
            3 => st(self.g.string()),
            4 => N::Arr((0..self.g.r.below(4)).map(|_| self.any_json(d - 1)).collect()),
            _ => self.any_obj(d - 1),
        }
    }
    fn any(&mut self, m: &MessageDescriptor, d: u32) -> N {
        const TYS: &[&str] = &["v.k3.Scalars", "v.k3.One", "v.kw.Wk", "v.k3.Empty", "google.protobuf.Timestamp", "google.protobuf.Value", "google.protobuf.Int64Value", "google.protobuf.Any", "google.protobuf.Struct",
            "google.protobuf.Empty", "google.protobuf.FieldMask", "google.protobuf.Duration", "v.kx.Sub", "v.k2.Plain", "v.k3.Names", "google.protobuf.StringValue", "v.k2.Base", "google.protobuf.ListValue", "google.protobuf.BytesValue"];
        let pool = m.parent_pool();
        let tys: Vec<_> = TYS.iter().filter_map(|t| pool.get_message_by_name(t)).collect();
        if tys.is_empty() {
            return N::Obj(vec![]);
        }
        let t = self.g.r.pick(&tys).clone();
        let pre = self.pick(&["type.googleapis.com/", "type.googleapis.com/", "example.com/x/", "/"]);
        let mut url = format!("{pre}{}", t.full_name());
        if self.pct(self.wrong) {
            url = match self.g.r.below(5) {
                0 => t.full_name().to_string(),
                1 => format!("{pre}no.Such"),
                2 => String::new(),
                3 => format!("{url}/"),
                _ => format!("{pre}x.{}", t.full_name()),
            };
        }
        let wkt = t.full_name().starts_with("google.protobuf.");
        let mut o = if wkt {
            let v = self.message(&t, d.saturating_sub(1));
            let mut o = vec![("value".to_string(), v)];
            if self.pct(self.wrong) {
                match self.g.r.below(3) {
                    0 => o.clear(),
                    1 => o.push(("extra".into(), self.junk(1))),
                    _ => o[0].0 = "valu".into(),
                }
            }
            o
        } else {
            self.members(&t, d)
        };
        o.retain(|e| e.0 != "@type");
        let i = if self.pct(50) { 0 } else { self.g.r.below(o.len() + 1) };
        match self.g.r.below(100) as u64 {
            x if x < self.wrong / 2 => {}
            x if x < self.wrong => o.insert(i, ("@type".into(), self.junk(1))),
            _ => o.insert(i, ("@type".into(), N::Str(url))),
        }
        N::Obj(o)
    }
    fn timestamp(&mut self) -> String {
        let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        let y = match self.g.r.below(4) {
            0 => self.pick(&[1i64, 9999, 1970, 2000, 1900, 2024, 1600, 2100, 1582, 4]),
            1 => self.g.r.range(1, 9999),
            _ => self.g.r.range(1950, 2050),
        };
        let mo = self.g.r.range(1, 12);
        let dm = match mo {
            2 => 28 + leap(y) as i64,
            4 | 6 | 9 | 11 => 30,
            _ => 31,
        };
        let mut dd = if self.pct(40) { self.pick(&[1, dm]) } else { self.g.r.range(1, dm) };
        let (mut h, mut mi, mut s) = if self.pct(30) { self.pick(&[(0, 0, 0), (23, 59, 59), (0, 0, 1), (12, 0, 0)]) } else { (self.g.r.range(0, 23), self.g.r.range(0, 59), self.g.r.range(0, 59)) };
        let mut mo = mo;
        let mut y = y;
        let w = self.pct(self.wrong);
        let how = self.g.r.below(14);
        if w {
            match how {
                0 => dd = dm + 1,
                1 => dd = 0,
                2 => mo = self.pick(&[0, 13]),
                3 => h = 24,
                4 => mi = 60,
                5 => s = 61,
                6 => y = 0,
                _ => {}
            }
        }
        let mut out = format!("{y:04}-{mo:02}-{dd:02}T{h:02}:{mi:02}:{s:02}");
        match self.g.r.below(5) {
            0 | 1 => {}
            2 => {
                let n = self.g.r.below(12) + 1;
                out.push('.');
                for _ in 0..n {
                    out.push((b'0' + self.g.r.below(10) as u8) as char);
                }
            }
            3 => out.push_str(self.pick(&[".000", ".500", ".000001", ".999999999", ".000000001", ".9999999999", ".0", ".100000000"])),
            _ => {}
        }
        if self.pct(60) {
            out.push('Z')
        } else {
            let (oh, om) = if self.pct(50) { self.pick(&[(0, 0), (23, 59), (1, 0), (0, 1), (14, 0)]) } else { (self.g.r.range(0, 23), self.g.r.range(0, 59)) };
            let sg = self.pick(&['+', '-']);
            let (oh, om) = if w && how == 7 { self.pick(&[(24, 0), (1, 60), (99, 0)]) } else { (oh, om) };
            out.push_str(&format!("{sg}{oh:02}:{om:02}"));
        }
        if w {
            match how {
                8 => {
                    out.pop();
                }
                9 => out = out.replace('T', self.pick(&[" ", "t", ""])),
                10 => out = out.replace('Z', self.pick(&["z", "", "+00", "+0000", "Z ", "+0:00"])),
                11 => out.push(self.pick(&['Z', ' ', '0'])),
                12 => out = out.replacen('-', self.pick(&["", "/", "--"]), 1),
                13 => {
                    let i = self.g.r.below(out.len());
                    let c = self.pick(&["x", "-", "+", "é", "", ".", ":"]);
                    out.replace_range(i..i + 1, c);
                    if out.contains("Z.") || out.as_bytes().get(17..19) == Some(b"60") {
                        return "2000-01-01".into();
                    }
                }
                _ => {}
            }
        }
        out
    }
    fn duration(&mut self) -> String {
        let mut s = match self.g.r.below(4) {
            0 => self.pick(&["0", "1", "315576000000", "60", "315575999999"]).to_string(),
            1 => self.g.r.range(0, 1000000).to_string(),
            2 => self.g.r.range(0, 315576000000).to_string(),
            _ => self.g.r.range(0, 10).to_string(),
        };
        if self.pct(50) {
            s.push('.');
            s.push_str(&match self.g.r.below(3) {
                0 => self.pick(&["5", "000000001", "999999999", "100", "0", "000", "9999999999", "123456"]).to_string(),
                _ => {
                    let n = self.g.r.below(11) + 1;
                    (0..n).map(|_| (b'0' + self.g.r.below(10) as u8) as char).collect()
                }
            });
        }
        if self.pct(40) {
            s.insert(0, '-')
        }
        s.push('s');
        if self.pct(self.wrong) {
            s = match self.g.r.below(8) {
                0 => s[..s.len() - 1].to_string(),
                1 => self.pick(&["315576000001s", "-315576000001s", "9223372036854775807s", "9223372036854775808s", "99999999999999999999s", "315576000000.000000001s", "-315576000000.5s", "-9223372036854775808s"]).to_string(),
                2 => self.pick(&["s", "-s", ".5s", "1.s", "-.5s", "", "1.-5s", "1e3s", "--1s", "- 1s", "1 s", "0x1s", "1,5s", "1.5"]).to_string(),
                3 => s.replace('s', "S"),
                4 => format!("{s} "),
                5 => format!(" {s}"),
                6 => format!("{s}s"),
                _ => s.replace('.', ".."),
            };
        }
        s
    }
    fn mask(&mut self) -> String {
        let n = self.g.r.below(4);
        let w = self.wrong;
        let ps: Vec<&str> = (0..n)
            .map(|_| if self.pct(w) { self.pick(&["foo_bar", "", "Foo", "a.B", "_", "a b", "aBC", "1a", "é", "a.", "A"]) } else { self.pick(&["a", "fooBar", "aB", "foo.barBaz", "x1", "aBCd", "a.b.cD", "foo", "aÉ"]) })
            .collect();
        ps.join(",")
    }
}

/// changes somewhere in a document
pub fn mutate_tree(n: &mut N, d: &mut Doc) {
    match n {
        N::Arr(a) if !a.is_empty() && d.g.r.pct(75) => {
            let i = d.g.r.below(a.len());
            match d.g.r.below(6) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let x = a[i].clone();
                    a.push(x)
                }
                _ => mutate_tree(&mut a[i], d),
            }
        }
        N::Obj(o) if !o.is_empty() && d.g.r.pct(85) => {
            let i = d.g.r.below(o.len());
            match d.g.r.below(10) {
                0 => {
                    o.remove(i);
                }
                1 => {
                    let k = o[i].0.clone();
                    o[i].0 = match d.g.r.below(4) {
                        0 => k.to_uppercase(),
                        1 => k.replace('_', ""),
                        2 => k.trim_matches(|c| c == '[' || c == ']').to_string(),
                        _ => format!("{k}x"),
                    };
                }
                2 if o.len() > 1 => {
                    let j = d.g.r.below(o.len());
                    let t = o[i].1.clone();
                    o[i].1 = o[j].1.clone();
                    o[j].1 = t;
                }
                3 => {
                    let j = d.g.r.below(o.len());
                    o.swap(i, j)
                }
                _ => mutate_tree(&mut o[i].1, d),
            }
        }
        n => {
            *n = match d.g.r.below(6) {
                0 => N::Null,
                1 => N::Arr(vec![n.clone()]),
                2 => match n {
                    N::Str(s) => {
                        let t = s.clone();
                        if t.parse::<f64>().is_ok() && parse(&t).is_ok() {
                            N::Num(t)
                        } else {
                            N::Str(format!("{t} "))
                        }
                    }
                    N::Num(s) => N::Str(s.clone()),
                    _ => d.junk(1),
                },
                _ => d.junk(2),
            }
        }
    }
}

// ---- events ----
pub fn ser_opts(r: &mut Rng) -> (bool, bool, bool, bool) {
    if r.pct(30) {
        (true, false, false, true)
    } else {
        (r.pct(50), r.pct(50), r.pct(50), r.pct(50))
    }
}

impl Case<'_> {
    /// serialize register x
    pub fn json(&mut self, x: usize) -> Option<String> {
        let o = ser_opts(&mut self.g.r);
        self.json_with(x, o)
    }
    /// 64-bit integers as strings, enums as numbers, original names, without defaults
    pub fn json_with(&mut self, x: usize, (s64, en, pn, sk): (bool, bool, bool, bool)) -> Option<String> {
        let m = self.regs[x].clone()?;
        let o = SerializeOptions::new().stringify_64_bit_integers(s64).use_enum_numbers(en).use_proto_field_name(pn).skip_default_fields(sk);
        let via = self.g.r.below(4);
        let r = guard(|| match via {
            0 if s64 && !en && !pn && sk => serde_json::to_string(&m).map_err(|_| ()),
            1 => {
                let mut v = vec![];
                m.serialize_with_options(&mut serde_json::Serializer::pretty(&mut v), &o).map_err(|_| ())?;
                Ok(String::from_utf8(v).unwrap())
            }
            _ => {
                let mut v = vec![];
                m.serialize_with_options(&mut serde_json::Serializer::new(&mut v), &o).map_err(|_| ())?;
                Ok(String::from_utf8(v).unwrap())
            }
        });
        let (q, j, t) = match r {
            None => ("panic", obj! {"j": J::s("none")}, None),
            Some(Err(_)) => ("err", obj! {"j": J::s("none")}, None),
            Some(Ok(t)) => match parse(&t) {
                Ok(n) => match node(&n) {
                    Some(j) => ("ok", j, Some(t)),
                    // e.g. a float whose nearest values differ; nothing to compare
                    None => return Some(t),
                },
                Err(_) => ("ok", obj! {"j": J::s("bad")}, Some(t)),
            },
        };
        let ev = obj! {"o": J::s("json"), "x": J::Int(x as i64), "opts": obj! {"s64": J::Bool(s64), "enumnum": J::Bool(en), "protoname": J::Bool(pn), "skipdef": J::Bool(sk)}, "q": J::s(q), "j": j};
        self.ev.push(ev);
        t
    }
    /// deserialize a document into register x; false when the document is outside what the properties settle
    pub fn unjson(&mut self, x: usize, t: &MessageDescriptor, text: &str, strict: bool, deny: bool) -> bool {
        let p = parse(text);
        let (j, tree) = match &p {
            Err(Bad::Odd) => return false,
            Err(Bad::Syntax) => (obj! {"j": J::s("bad")}, false),
            Ok(n) => {
                if strict && odd(n) {
                    return false;
                }
                match node(n) {
                    Some(j) => (j, true),
                    // a number no double can hold; where nobody looks at it, it is not an error
                    None if text.contains("e4") && deny && overflows(n) => (obj! {"j": J::s("bad")}, false),
                    None => return false,
                }
            }
        };
        let deny_opt = DeserializeOptions::new().deny_unknown_fields(deny);
        let via = self.g.r.below(5);
        let r = guard(|| -> Result<DynamicMessage, ()> {
            match via {
                0 if tree => {
                    let v: serde_json::Value = serde_json::from_str(text).map_err(|_| ())?;
                    DynamicMessage::deserialize_with_options(t.clone(), v, &deny_opt).map_err(|_| ())
                }
                1 => {
                    let mut de = serde_json::Deserializer::from_slice(text.as_bytes());
                    let m = DynamicMessage::deserialize_with_options(t.clone(), &mut de, &deny_opt).map_err(|_| ())?;
                    de.end().map_err(|_| ())?;
                    Ok(m)
                }
                2 => {
                    let mut de = serde_json::Deserializer::from_reader(text.as_bytes());
                    let m = DynamicMessage::deserialize_with_options(t.clone(), &mut de, &deny_opt).map_err(|_| ())?;
                    de.end().map_err(|_| ())?;
                    Ok(m)
                }
                3 if deny => {
                    let mut de = serde_json::Deserializer::from_str(text);
                    let m = serde::de::DeserializeSeed::deserialize(t.clone(), &mut de).map_err(|_| ())?;
                    de.end().map_err(|_| ())?;
                    Ok(m)
                }
                _ => {
                    let mut de = serde_json::Deserializer::from_str(text);
                    let m = DynamicMessage::deserialize_with_options(t.clone(), &mut de, &deny_opt).map_err(|_| ())?;
                    de.end().map_err(|_| ())?;
                    Ok(m)
                }
            }
        });
        let q = match r {
            None => "panic",
            Some(Ok(m)) => {
                self.regs[x] = Some(m);
                "ok"
            }
            Some(Err(_)) => "err",
        };
        if q != "ok" {
            self.regs[x] = None;
        }
        self.clean[x] = false;
        let d = self.d(x);
        self.ev.push(obj! {"o": J::s("unjson"), "x": J::Int(x as i64), "mt": J::s(t.full_name()), "deny": J::Bool(deny), "j": j, "q": J::s(q), "d": d});
        true
    }
    /// a generated document for a type
    pub fn gen_doc(&mut self, t: &MessageDescriptor, wrong: u64) -> String {
        let mut d = Doc { g: &mut self.g, wrong };
        let depth = 1 + d.g.r.below(2) as u32;
        let n = d.message(t, depth);
        print(&n, &mut self.g.r, true)
    }
    pub fn jround(&mut self, x: usize, y: usize) {
        self.ev.push(obj! {"o": J::s("jround"), "x": J::Int(x as i64), "y": J::Int(y as i64)});
    }
}

fn overflows(n: &N) -> bool {
    match n {
        N::Num(t) => t.parse::<f64>().is_ok_and(|d| !d.is_finite()),
        N::Arr(a) => a.iter().any(overflows),
        N::Obj(o) => o.iter().any(|e| overflows(&e.1)),
        _ => false,
    }
}

pub fn mutate_text(t: &mut String, r: &mut Rng) {
    let cs: Vec<usize> = t.char_indices().map(|x| x.0).collect();
    if cs.is_empty() {
        return;
    }
    let i = cs[r.below(cs.len())];
    match r.below(4) {
        0 => t.truncate(i),
        1 => {
            t.remove(i);
        }
        2 => t.insert_str(i, *r.pick(&["{", "}", "[", "]", ",", ":", "\"", "0", "-", ".", "e", "\\", " ", "null", "\u{1}", "tru", "+", "x"])),
        _ => {
            let c = t.remove(i);
            let j = cs[r.below(cs.len())].min(t.len());
            if t.is_char_boundary(j) {
                t.insert(j, c)
            }
        }
    }
}

pub fn run(profile: &str, c: &mut Case) {
    c.g.depth = 2;
    c.g.unknown = 10;
    c.g.wkt_valid = 85;
    let fixed = c.w.id == 1;
    match profile {
        "J01" | "J02" => {
            let t = jtype(c);
            c.g.depth = 2 + (c.g.r.pct(20) as u32);
            if !c.load(0, &t) {
                return;
            }
            for _ in 0..if profile == "J02" { 3 } else { 1 } {
                if let Some(s) = c.json(0) {
                    if profile == "J01" || c.g.r.pct(10) {
                        let deny = c.g.r.pct(80);
                        if c.unjson(1, &t, &s, false, deny) {
                            c.jround(0, 1);
                        }
                    }
                }
            }
        }
        _ => {
            let t = if profile == "J04" && fixed {
                let n = *c.g.r.pick(&["v.kw.Wk", "v.kw.Wk", "v.kw.Wk", "v.kx.Sub", "v.k3.One", "google.protobuf.Timestamp", "google.protobuf.Duration", "google.protobuf.FieldMask", "google.protobuf.Empty", "google.protobuf.Struct", "google.protobuf.Value",
                    "google.protobuf.ListValue", "google.protobuf.Any", "google.protobuf.DoubleValue", "google.protobuf.FloatValue", "google.protobuf.Int64Value", "google.protobuf.UInt64Value", "google.protobuf.Int32Value", "google.protobuf.UInt32Value",
                    "google.protobuf.BoolValue", "google.protobuf.StringValue", "google.protobuf.BytesValue"]);
                c.w.ty(n)
            } else {
                jtype(c)
            };
            for _ in 0..2 {
                if profile == "J04" && c.g.r.pct(35) {
                    // messages at and beyond the edges of the special forms
                    c.g.wkt_valid = *c.g.r.pick(&[100, 85, 50]);
                    if !c.load(0, &t) {
                        return;
                    }
                    if let Some(s) = c.json(0) {
                        if c.unjson(1, &t, &s, false, true) {
                            c.jround(0, 1);
                        }
                    }
                    continue;
                }
                let wrong = *c.g.r.pick(&[0u64, 0, 4, 15, 30]);
                let deny = c.g.r.pct(60);
                let mut d = Doc { g: &mut c.g, wrong };
                let depth = 1 + d.g.r.below(3) as u32;
                let mut n = d.message(&t, depth);
                let mut strict = false;
                let k = d.g.r.below(10);
                if k < 3 {
                    strict = true;
                    for _ in 0..d.g.r.below(2) + 1 {
                        mutate_tree(&mut n, &mut d);
                    }
                }
                let mut s = print(&n, &mut c.g.r, true);
                if k == 3 {
                    strict = true;
                    mutate_text(&mut s, &mut c.g.r);
                }
                if c.unjson(0, &t, &s, strict, deny) && c.regs[0].is_some() && c.g.r.pct(25) {
                    if let Some(s) = c.json(0) {
                        if c.unjson(1, &t, &s, false, true) {
                            c.jround(0, 1);
                        }
                    }
                }
            }
        }
    }
}

fn jtype(c: &mut Case) -> MessageDescriptor {
    const MAIN: &[&str] = &["v.k3.Scalars", "v.k3.Opt", "v.k3.Rep", "v.k3.Maps", "v.k3.One", "v.k3.Tree", "v.k2.Base", "v.k2.Base", "v.k2.Holder", "v.k3.Scalars", "v.kx.Sub", "v.k3.Names", "v.kw.Wk", "v.kw.Wk"];
    if c.w.id == 1 && c.g.r.pct(90) {
        let n = *c.g.r.pick(MAIN);
        c.w.ty(n)
    } else {
        c.any_type()
    }
}
