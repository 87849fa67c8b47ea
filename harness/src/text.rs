//! Text format: generating texts and the recorded events.
use crate::{js::J, msg::*, obj, rng::Rng, val::*};
use prost_reflect::text_format::FormatOptions;
use prost_reflect::*;

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    pub pretty: bool,
    pub skipunk: bool,
    pub skipdef: bool,
    pub index: bool,
    pub any: bool,
}

impl Opts {
    pub const DEFAULT: Opts = Opts { pretty: false, skipunk: true, skipdef: true, index: false, any: true };
    pub fn random(r: &mut Rng) -> Opts {
        if r.pct(25) {
            Opts { pretty: r.pct(50), ..Opts::DEFAULT }
        } else {
            Opts { pretty: r.pct(50), skipunk: r.pct(50), skipdef: r.pct(60), index: r.pct(50), any: r.pct(60) }
        }
    }
    pub fn api(&self) -> FormatOptions {
        FormatOptions::new().pretty(self.pretty).skip_unknown_fields(self.skipunk).skip_default_fields(self.skipdef).print_message_fields_in_index_order(self.index).expand_any(self.any)
    }
    fn is_default(&self) -> bool {
        self.skipunk && self.skipdef && !self.index && self.any
    }
    fn json(&self) -> J {
        obj! {"pretty": J::Bool(self.pretty), "skipunk": J::Bool(self.skipunk), "skipdef": J::Bool(self.skipdef), "index": J::Bool(self.index), "any": J::Bool(self.any)}
    }
}

// ---- what the decimal numbers in a text are nearest to ----
fn entry(t: &str, seen: &mut Vec<String>, out: &mut Vec<J>) {
    if seen.iter().any(|s| s == t) {
        return;
    }
    if let (Ok(d), Ok(f)) = (t.parse::<f64>(), t.parse::<f32>()) {
        seen.push(t.to_string());
        out.push(obj! {"tx": J::b(t.as_bytes()), "d": J::b(&d.to_bits().to_le_bytes()), "f": J::b(&f.to_bits().to_le_bytes())});
    }
}
pub fn written_numbers(t: &str) -> J {
    let (mut seen, mut out) = (vec![], vec![]);
    for run in t.split(|c: char| !(c.is_ascii_alphanumeric() || "+-.".contains(c))) {
        if !run.is_empty() {
            entry(run, &mut seen, &mut out)
        }
    }
    J::Arr(out)
}
fn digits(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1
    }
    i
}
fn read_numbers(t: &str) -> J {
    let (mut seen, mut out) = (vec![], vec![]);
    read_into(t, &mut seen, &mut out);
    J::Arr(out)
}
pub fn read_into(t: &str, seen: &mut Vec<String>, out: &mut Vec<J>) {
    let b = t.as_bytes();
    let mut starts = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'.' {
            starts.push(i)
        }
        if b[i].is_ascii_digit() {
            let e = digits(b, i);
            starts.push(i);
            if let Some(k) = (i..e).find(|k| b[*k] != b'0') {
                starts.push(k)
            }
            if b[i] == b'0' {
                if let Some(k) = (i..e).find(|k| b[*k] > b'7') {
                    starts.push(k)
                }
            }
            i = e;
        } else {
            i += 1
        }
    }
    for i in starts {
        let e1 = digits(b, i);
        if e1 > i {
            entry(&t[i..e1], seen, out)
        }
        let mut e2 = e1;
        if e1 < b.len() && b[e1] == b'.' {
            e2 = digits(b, e1 + 1);
            if e2 == i + 1 {
                continue;
            }
            entry(&t[i..e2], seen, out)
        }
        if e2 < b.len() && (b[e2] | 32) == b'e' {
            let mut k = e2 + 1;
            if k < b.len() && (b[k] == b'+' || b[k] == b'-') {
                k += 1
            }
            let e3 = digits(b, k);
            if e3 > k {
                entry(&t[i..e3], seen, out)
            }
        }
    }
}

// ---- generation ----
pub struct Txt<'a> {
    pub g: &'a mut Gen,
    pub wrong: u64,
    pub out: Vec<String>,
}

fn case_mix(s: &str, r: &mut Rng) -> String {
    s.chars().map(|c| if r.pct(30) { c.to_ascii_uppercase() } else { c }).collect()
}

impl Txt<'_> {
    fn t(&mut self, s: impl ToString) {
        self.out.push(s.to_string())
    }
    fn pct(&mut self, p: u64) -> bool {
        self.g.r.pct(p)
    }
    fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        self.g.r.pick(xs).clone()
    }
    fn bad(&mut self) -> bool {
        let w = self.wrong;
        self.g.r.pct(w)
    }
    fn int(&mut self, v: i128) {
        if v < 0 {
            self.t("-")
        }
        let u = v.unsigned_abs();
        let s = match self.g.r.below(7) {
            0 => format!("0x{u:x}"),
            1 => format!("0X{u:X}"),
            2 => format!("0{u:o}"),
            3 => format!("0x00{u:X}"),
            _ => u.to_string(),
        };
        self.t(s)
    }
    fn any_int(&mut self, lo: i128, hi: i128) {
        let v = match self.g.r.below(6) {
            0 => lo,
            1 => hi,
            2 => self.g.r.range(-2, 2) as i128,
            3 => self.g.u64() as i64 as i128,
            _ => self.g.u32() as i32 as i128,
        };
        let v = if self.bad() {
            match self.g.r.below(4) {
                0 => hi + 1,
                1 => lo - 1,
                2 => hi * 16 + 15,
                _ => -1,
            }
        } else if v < lo || v > hi {
            self.g.r.below(100) as i128
        } else {
            v
        };
        self.int(v);
        if self.bad() {
            let i = self.out.len() - 1;
            let s = self.pick(&["1.0", "1e3", "0x", "08", "0b1", "1f", "x", "''", "+1", "-", "1.", ".", "1_0", "٣", "0o7", "12a", "true"]);
            self.out[i] = s.into();
        }
    }
    fn float(&mut self) {
        if self.pct(30) {
            self.t("-")
        }
        if self.bad() {
            let s = self.pick(&["0x10", "010", "1e", "1e+", ".", "1.5ee3", "1.2.3", "1ff", "infx", "+1", "--1", "'1'", "0xf", "1.5 f", "0F0", "00f", "09f", "00", "nano", "infinit", "1.0e5.0"]);
            return self.t(s);
        }
        let s: String = match self.g.r.below(9) {
            0 => {
                let s = self.pick(&["inf", "infinity", "nan", "Inf", "NaN", "INFINITY"]);
                case_mix(s, &mut self.g.r)
            }
            1 => self.pick(&["0", "0f", "0F", "1", "1f", "12F", "1.", "1.f", ".5", ".5F", "0.5e3f", "1e5", "1E+5", "1e-5F", "00.5", "01.5", "08.", "0e0", "00e1", "123456789", "18446744073709551616", "99999999999999999999999999"]).into(),
            2 => self.pick(&["1e400", "1e39", "1e-400", "1e-50", "3.4028235e38", "3.4028236e38", "1.7976931348623157e308", "4.9e-324", "7.038531e-26", "16777217", "16777219.0", "0.1", "123456.789e-3", "1e-46", "9007199254740993", "8.41470984807896506652502321630e-1f"]).into(),
            3 => self.g.u64().to_string(),
            4 => {
                let f = self.g.f32();
                if f.is_finite() { format!("{f:e}") } else { "7".into() }
            }
            5 => {
                let f = self.g.f64();
                if f.is_finite() { format!("{f:?}") } else { "7".into() }
            }
            6 => {
                let f = self.g.f64();
                if f.is_finite() { format!("{f:E}") } else { "7".into() }
            }
            _ => format!("{}.{}{}", self.g.r.below(100), self.g.r.below(1000), ["", "f", "F", "e2", "e-2f"][self.g.r.below(5)]),
        };
        let s = if let Some(x) = s.strip_prefix('-') {
            self.t("-");
            x.to_string()
        } else {
            s
        };
        self.t(s)
    }
    fn string(&mut self, v: &[u8]) {
        let parts = if self.pct(25) { 2 } else { 1 };
        let cut = if parts == 2 { self.g.r.below(v.len() + 1) } else { v.len() };
        for p in [&v[..cut], &v[cut..]].iter().take(parts) {
            let q = if self.pct(50) { b'"' } else { b'\'' };
            let mut o = vec![q];
            let mut i = 0;
            let whole = std::str::from_utf8(p).ok();
            while i < p.len() {
                let c = p[i];
                let esc = c == q || c == b'\\' || c == b'\n' || c == 0 || c >= 0x80 || self.pct(15);
                if c >= 0x80 && whole.is_some_and(|w| w.is_char_boundary(i)) && self.pct(60) {
                    // a whole character at once
                    let ch = whole.unwrap()[i..].chars().next().unwrap();
                    match self.g.r.below(3) {
                        0 if (ch as u32) < 0x10000 => o.extend(format!("\\u{:04x}", ch as u32).bytes()),
                        1 => o.extend(format!("\\U{:08X}", ch as u32).bytes()),
                        _ => o.extend(ch.to_string().bytes()),
                    }
                    i += ch.len_utf8();
                    continue;
                }
                i += 1;
                if !esc {
                    o.push(c);
                    continue;
                }
                match self.g.r.below(6) {
                    0 => o.extend(format!("\\{c:03o}").bytes()),
                    1 => o.extend(format!("\\{c:o}").bytes()),
                    2 => o.extend(format!("\\x{c:x}").bytes()),
                    3 => o.extend(format!("\\X{c:02X}").bytes()),
                    4 if c < 0x80 => o.extend(format!("\\u{:04X}", c).bytes()),
                    _ => match c {
                        7 => o.extend(b"\\a"),
                        8 => o.extend(b"\\b"),
                        9 => o.extend(b"\\t"),
                        10 => o.extend(b"\\n"),
                        11 => o.extend(b"\\v"),
                        12 => o.extend(b"\\f"),
                        13 => o.extend(b"\\r"),
                        b'?' => o.extend(b"\\?"),
                        b'\\' => o.extend(b"\\\\"),
                        b'"' => o.extend(b"\\\""),
                        b'\'' => o.extend(b"\\'"),
                        _ => o.extend(format!("\\{c:03o}").bytes()),
                    },
                }
            }
            if self.bad() {
                let s = self.pick(&["\\", "\\q", "\\x", "\\400", "\\777", "\\u12", "\\U0011ffff", "\\U00110000", "\\xg", "\n", "\\8", "\\u", "\u{0}", "\\U1234", "\\0", "\\377", "\\xff", "\\?", "é"]);
                o.extend(s.bytes())
            }
            if self.bad() {
                o.pop();
            } else {
                o.push(q);
            }
            let s = String::from_utf8(o).unwrap_or_else(|_| "'x'".into());
            self.t(s)
        }
    }
    fn scalar(&mut self, k: &Kind) {
        if self.bad() && self.pct(40) {
            let s = self.pick(&["true", "1", "'a'", "1.5", "foo", "[]", "{}", "-1", "<>", "[1]", "''", "inf"]);
            return self.t(s);
        }
        match k {
            Kind::Double | Kind::Float => self.float(),
            Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => self.any_int(i32::MIN as i128, i32::MAX as i128),
            Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => self.any_int(i64::MIN as i128, i64::MAX as i128),
            Kind::Uint32 | Kind::Fixed32 => self.any_int(0, u32::MAX as i128),
            Kind::Uint64 | Kind::Fixed64 => self.any_int(0, u64::MAX as i128),
            Kind::Bool => {
                let s = if self.bad() {
                    self.pick(&["TRUE", "2", "tRue", "T", "F", "-0", "-1", "0.0", "yes", "'true'", "0x2", "1.0", "256", "nil", "FALSE", "257"])
                } else {
                    self.pick(&["true", "false", "True", "False", "t", "f", "0", "1", "00", "01", "0x0", "0x1", "0x00", "001"])
                };
                self.t(s)
            }
            Kind::String => {
                let s = self.g.string();
                if self.bad() {
                    self.string(b"\xff\xc0")
                } else {
                    self.string(s.as_bytes())
                }
            }
            Kind::Bytes => {
                let s = self.g.bytes();
                self.string(&s)
            }
            Kind::Enum(e) => {
                let vs: Vec<_> = e.values().collect();
                let v = self.pick(&vs);
                if self.bad() {
                    let s = self.pick(&["NOPE", "2147483648", "'E_ONE'", "-2147483649", "1.0", "e_one", "-E_ONE"]);
                    self.t(s)
                } else if self.pct(60) {
                    self.t(v.name())
                } else if self.pct(70) {
                    self.int(v.number() as i128)
                } else {
                    self.any_int(i32::MIN as i128, i32::MAX as i128)
                }
            }
            Kind::Message(_) => unreachable!(),
        }
    }
    fn element(&mut self, k: &Kind, d: u32) {
        match k {
            Kind::Message(m) => {
                let curly = self.pct(70);
                self.t(if curly { "{" } else { "<" });
                if m.is_map_entry() {
                    self.entry(m, d)
                } else {
                    self.body(m, d)
                }
                let bad = self.bad() && self.pct(30);
                self.t(if curly != bad { "}" } else { ">" })
            }
            k => self.scalar(k),
        }
    }
    fn entry(&mut self, m: &MessageDescriptor, d: u32) {
        let mut fs = vec![m.map_entry_key_field(), m.map_entry_value_field()];
        if self.pct(15) {
            fs.reverse()
        }
        if self.pct(10) {
            fs.pop();
        }
        if self.bad() && self.pct(30) {
            fs.push(m.map_entry_key_field())
        }
        for f in fs {
            self.field(&Fd::F(f), d)
        }
    }
    fn name(&mut self, f: &Fd) {
        let s = match f {
            Fd::F(f) => {
                if f.is_group() {
                    let k = f.kind();
                    let t = k.as_message().unwrap().name().to_string();
                    if self.bad() {
                        f.name().to_string()
                    } else {
                        t
                    }
                } else if self.bad() {
                    match self.g.r.below(4) {
                        0 => f.json_name().to_string(),
                        1 => f.name().to_uppercase(),
                        2 => format!("{}x", f.name()),
                        _ => f.number().to_string(),
                    }
                } else {
                    f.name().to_string()
                }
            }
            Fd::X(x) => {
                let n = if self.bad() {
                    match self.g.r.below(4) {
                        0 => x.name().to_string(),
                        1 => format!(".{}", x.full_name()),
                        2 => format!("{}.x", x.full_name()),
                        _ => {
                            return self.t(x.full_name());
                        }
                    }
                } else {
                    x.full_name().to_string()
                };
                self.t("[");
                self.dotted(&n);
                return self.t("]");
            }
        };
        self.t(s)
    }
    fn dotted(&mut self, n: &str) {
        for (i, p) in n.split('.').enumerate() {
            if i > 0 {
                self.t(".")
            }
            self.t(p)
        }
    }
    fn end(&mut self) {
        match self.g.r.below(6) {
            0 => self.t(","),
            1 => self.t(";"),
            _ => {}
        }
        if self.bad() && self.pct(20) {
            let s = self.pick(&[",", ";", ":", ".", "/"]);
            self.t(s)
        }
    }
    fn field(&mut self, f: &Fd, d: u32) {
        self.name(f);
        let k = f.kind();
        let msg = k.as_message().is_some();
        let multi = f.is_list() || f.is_map();
        let list = if multi { self.pct(40) } else { self.bad() && self.pct(10) };
        let colon = if msg { self.pct(50) } else { !self.bad() };
        if colon {
            self.t(":")
        }
        if list {
            self.t("[");
            let n = self.g.r.below(4);
            for i in 0..n {
                if i > 0 {
                    let s = if self.bad() { self.pick(&[";", "", ":"]) } else { "," };
                    self.t(s)
                }
                self.element(&k, d.saturating_sub(1))
            }
            if self.bad() {
                self.t(",")
            }
            self.t("]")
        } else {
            self.element(&k, d.saturating_sub(1))
        }
        self.end()
    }
    pub fn body(&mut self, m: &MessageDescriptor, d: u32) {
        if m.full_name() == "google.protobuf.Any" && self.pct(70) {
            return self.any(m, d);
        }
        let all = Fd::all(m);
        if all.is_empty() {
            return;
        }
        let n = if d == 0 { self.g.r.below(2) } else { self.g.r.below(5) };
        let mut used: Vec<u32> = vec![];
        for _ in 0..n {
            let f = self.pick(&all);
            if f.kind().as_message().is_some() && d == 0 {
                continue;
            }
            let clash: Vec<u32> = match &f {
                Fd::F(f) if f.is_list() || f.is_map() => vec![],
                Fd::F(f) => f.containing_oneof().map(|o| o.fields().map(|f| f.number()).collect()).unwrap_or_else(|| vec![f.number()]),
                Fd::X(f) if f.is_list() => vec![],
                Fd::X(f) => vec![f.number()],
            };
            if clash.iter().any(|n| used.contains(n)) && !self.bad() {
                continue;
            }
            used.extend(clash);
            self.field(&f, d)
        }
    }
    fn any(&mut self, m: &MessageDescriptor, d: u32) {
        let types: Vec<_> = m.parent_pool().all_messages().filter(|m| !m.is_map_entry()).collect();
        let t = self.pick(&types);
        let n = if self.bad() { self.pick(&["no.such.Type", "v", ".v.k3.Opt", "v.k3"]).to_string() } else { t.full_name().to_string() };
        let p = self.pick(&["type.googleapis.com", "a", "type.googleprod.com", "x.y_z.w", "Type.Example_9", "_X.B1", "A.com"]);
        self.t("[");
        self.dotted(p);
        self.t("/");
        if self.bad() && self.pct(30) {
            self.t("/")
        }
        self.dotted(&n);
        self.t("]");
        if self.pct(40) {
            self.t(":")
        }
        let curly = self.pct(70);
        self.t(if curly { "{" } else { "<" });
        self.body(&t, d.saturating_sub(1));
        self.t(if curly { "}" } else { ">" });
        self.end()
    }
    /// the tokens with free layout between them
    pub fn print(&mut self, glue: bool) -> String {
        let mut s = String::new();
        let wordy = |c: char| c.is_alphanumeric() || c == '_' || c == '.';
        for t in std::mem::take(&mut self.out) {
            let clash = matches!((s.chars().last(), t.chars().next()), (Some(a), Some(b)) if wordy(a) && wordy(b)) && t != "." && !(s.ends_with('.') && t.chars().next().unwrap().is_alphabetic() && !glue);
            let need = clash && !(glue && self.pct(20));
            if need || self.pct(30) {
                let w = self.pick(&[" ", " ", " ", "\n", "\t", "  ", "\r\n", "\u{c}", "\u{b}", "# comment { \" \n", "#\n", "\n# x: 1\n  "]);
                s.push_str(w)
            }
            s.push_str(&t)
        }
        if self.pct(10) {
            s.push_str("# tail")
        }
        s
    }
}

pub fn mutate_tokens(v: &mut Vec<String>, r: &mut Rng) {
    if v.is_empty() {
        return;
    }
    let i = r.below(v.len());
    match r.below(6) {
        0 => {
            v.remove(i);
        }
        1 => {
            let t = v[i].clone();
            v.insert(i, t)
        }
        2 => {
            let j = r.below(v.len());
            v.swap(i, j)
        }
        3 => v.insert(i, r.pick(&["{", "}", "[", "]", "<", ">", ",", ";", ":", "/", ".", "-", "0", "a", "'s'", "1.5"]).to_string()),
        4 => {
            let j = r.below(v.len());
            v[i] = v[j].clone()
        }
        _ => v.truncate(i),
    }
}
pub fn mutate_chars(t: &mut String, r: &mut Rng) {
    let cs: Vec<usize> = t.char_indices().map(|x| x.0).collect();
    if cs.is_empty() {
        return;
    }
    let i = cs[r.below(cs.len())];
    match r.below(4) {
        0 => t.truncate(i),
        1 => {
            t.remove(i);
        }
        2 => t.insert_str(i, *r.pick(&["{", "}", "[", "]", ",", ":", "\"", "'", "0", "-", ".", "e", "\\", " ", "#", "\u{1}", "_", "+", "x", "f", "\n", "\u{0}", "é", ";", "/", "<", ">"])),
        _ => {
            let c = t.remove(i);
            let j = cs[r.below(cs.len())].min(t.len());
            if t.is_char_boundary(j) {
                t.insert(j, c)
            }
        }
    }
}

// ---- events ----
impl Case<'_> {
    pub fn text(&mut self, x: usize) -> Option<String> {
        let o = Opts::random(&mut self.g.r);
        self.text_with(x, o)
    }
    pub fn text_with(&mut self, x: usize, o: Opts) -> Option<String> {
        let m = self.regs[x].clone()?;
        let via = self.g.r.below(3);
        let r = guard(|| match via {
            0 if o.is_default() && !o.pretty => m.to_text_format(),
            1 if o.is_default() => {
                if o.pretty {
                    format!("{m:#}")
                } else {
                    format!("{m}")
                }
            }
            _ => m.to_text_format_with_options(&o.api()),
        });
        let (q, t) = match &r {
            None => ("panic", String::new()),
            Some(t) => ("ok", t.clone()),
        };
        self.ev.push(obj! {"o": J::s("text"), "x": J::Int(x as i64), "opts": o.json(), "q": J::s(q), "tx": J::b(t.as_bytes()), "fw": written_numbers(&t)});
        r
    }
    pub fn vtext(&mut self, v: &Value) {
        let pretty = self.g.r.pct(50);
        let o = Opts { pretty, ..Opts::DEFAULT };
        let r = guard(|| if pretty { format!("{v:#}") } else { format!("{v}") });
        let (q, t) = match r {
            None => ("panic", String::new()),
            Some(t) => ("ok", t),
        };
        let d = guard(|| dump_value(v, true)).map(|d| d.shallow()).unwrap_or_else(panicked);
        self.ev.push(obj! {"o": J::s("vtext"), "x": J::Int(0), "v": d, "opts": o.json(), "q": J::s(q), "tx": J::b(t.as_bytes()), "fw": written_numbers(&t)});
    }
    pub fn untext(&mut self, x: usize, t: &MessageDescriptor, text: &str) {
        let r = guard(|| DynamicMessage::parse_text_format(t.clone(), text));
        let q = match r {
            None => "panic",
            Some(Ok(m)) => {
                self.regs[x] = Some(m);
                "ok"
            }
            Some(Err(_)) => "err",
        };
        if q != "ok" {
            self.regs[x] = None;
        }
        self.clean[x] = false;
        let d = self.d(x);
        self.ev.push(obj! {"o": J::s("untext"), "x": J::Int(x as i64), "mt": J::s(t.full_name()), "tx": J::b(text.as_bytes()), "fw": read_numbers(text), "q": J::s(q), "d": d});
    }
    pub fn mergetext(&mut self, x: usize, text: &str) {
        let mut m = match self.regs[x].take() {
            Some(m) => m,
            None => return,
        };
        let r = guard(|| {
            let r = m.merge_text_format(text);
            (m, r)
        });
        let q = match r {
            None => "panic",
            Some((m, Ok(()))) => {
                self.regs[x] = Some(m);
                "ok"
            }
            Some((_, Err(_))) => "err",
        };
        self.clean[x] = false;
        let d = self.d(x);
        self.ev.push(obj! {"o": J::s("mergetext"), "x": J::Int(x as i64), "tx": J::b(text.as_bytes()), "fw": read_numbers(text), "q": J::s(q), "d": d});
    }
    pub fn tround(&mut self, x: usize, y: usize) {
        self.ev.push(obj! {"o": J::s("tround"), "x": J::Int(x as i64), "y": J::Int(y as i64)});
    }
    pub fn gen_text(&mut self, t: &MessageDescriptor) -> String {
        let wrong = *self.g.r.pick(&[0u64, 0, 0, 2, 5, 12]);
        let d = 1 + self.g.r.below(3) as u32;
        let mut x = Txt { g: &mut self.g, wrong, out: vec![] };
        x.body(t, d);
        if x.pct(20) {
            let mut v = std::mem::take(&mut x.out);
            mutate_tokens(&mut v, &mut x.g.r);
            x.out = v;
        }
        let glue = x.pct(15);
        let mut s = x.print(glue);
        if self.g.r.pct(15) {
            mutate_chars(&mut s, &mut self.g.r)
        }
        s
    }
}

pub fn ttype(c: &mut Case) -> MessageDescriptor {
    const MAIN: &[&str] = &["v.k3.Scalars", "v.k3.Opt", "v.k3.Rep", "v.k3.Maps", "v.k3.One", "v.k3.Tree", "v.k2.Base", "v.k2.Base", "v.k2.Holder", "v.k3.Scalars", "v.kx.Sub", "v.k3.Names", "v.kw.Wk", "v.k2.Base"];
    if c.w.id == 1 && c.g.r.pct(88) {
        let n = *c.g.r.pick(MAIN);
        c.w.ty(n)
    } else {
        c.any_type()
    }
}

pub fn run(profile: &str, c: &mut Case) {
    c.g.depth = 2;
    c.g.wkt_valid = 70;
    match profile {
        "T01" => {
            c.g.unknown = 10;
            c.g.depth = 2 + (c.g.r.pct(20) as u32);
            let t = ttype(c);
            if !c.load(0, &t) {
                return;
            }
            for _ in 0..2 {
                let mut o = Opts::random(&mut c.g.r);
                // unknown fields have no names to read back
                o.skipunk = true;
                if let Some(s) = c.text_with(0, o) {
                    c.untext(1, &t, &s);
                    c.tround(0, 1);
                }
            }
        }
        "T03" => {
            c.g.unknown = 35;
            let t = ttype(c);
            if !c.load(0, &t) {
                return;
            }
            for _ in 0..3 {
                c.text(0);
            }
            let fs = Fd::all(&t);
            if !fs.is_empty() {
                let f = c.g.r.pick(&fs).clone();
                if let Some(v) = guard(|| c.g.value(&f, 2)) {
                    c.vtext(&v)
                }
            }
        }
        _ => {
            for _ in 0..2 {
                let t = ttype(c);
                let s = c.gen_text(&t);
                c.untext(0, &t, &s);
                if c.regs[0].is_some() && c.g.r.pct(35) {
                    let s = c.gen_text(&t);
                    c.mergetext(0, &s);
                    if c.regs[0].is_some() && c.g.r.pct(30) {
                        c.g.wire_bad = 0;
                        c.op(0, 0)
                    }
                }
            }
        }
    }
}
