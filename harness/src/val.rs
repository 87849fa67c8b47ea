//! Dumping values of the code under test to trace form, and generating random values.
use crate::{js::J, obj, rng::Rng};
use prost::Message;
use prost_reflect::*;
use std::collections::HashMap;

pub fn sc(t: &str, b: &[u8]) -> J {
    obj! {"t": J::s(t), "s": J::b(b)}
}

/// `sorted`: maps sorted by key bytes; otherwise in the iteration order of the map.
pub fn dump_value(v: &Value, sorted: bool) -> J {
    match v {
        Value::Bool(b) => sc("bool", &[*b as u8]),
        Value::I32(x) => sc("i32", &x.to_le_bytes()),
        Value::I64(x) => sc("i64", &x.to_le_bytes()),
        Value::U32(x) => sc("u32", &x.to_le_bytes()),
        Value::U64(x) => sc("u64", &x.to_le_bytes()),
        Value::F32(x) => sc("f32", &x.to_bits().to_le_bytes()),
        Value::F64(x) => sc("f64", &x.to_bits().to_le_bytes()),
        Value::String(x) => sc("string", x.as_bytes()),
        Value::Bytes(x) => sc("bytes", x),
        Value::EnumNumber(x) => sc("enum", &x.to_le_bytes()),
        Value::Message(m) => dump_msg(m, sorted),
        Value::List(xs) => obj! {"t": J::s("list"), "l": J::Arr(xs.iter().map(|x| dump_value(x, sorted)).collect())},
        Value::Map(m) => {
            let mut es: Vec<(Vec<u8>, J, J)> = m
                .iter()
                .map(|(k, v)| (key_bytes(k), dump_value(&k.clone().into(), sorted), dump_value(v, sorted)))
                .collect();
            if sorted {
                es.sort_by(|a, b| a.0.cmp(&b.0));
            }
            obj! {"t": J::s("map"), "p": J::Arr(es.into_iter().map(|(_, k, v)| J::Arr(vec![k, v])).collect())}
        }
    }
}

pub fn key_bytes(k: &MapKey) -> Vec<u8> {
    match k {
        MapKey::Bool(b) => vec![*b as u8],
        MapKey::I32(x) => x.to_le_bytes().to_vec(),
        MapKey::I64(x) => x.to_le_bytes().to_vec(),
        MapKey::U32(x) => x.to_le_bytes().to_vec(),
        MapKey::U64(x) => x.to_le_bytes().to_vec(),
        MapKey::String(x) => x.as_bytes().to_vec(),
    }
}

fn rd_varint(b: &mut &[u8]) -> u64 {
    let mut r = 0u64;
    let mut s = 0;
    loop {
        let x = b[0];
        *b = &b[1..];
        r |= ((x & 0x7f) as u64) << s;
        if x < 0x80 {
            return r;
        }
        s += 7;
    }
}

/// Parses (already canonical) unknown field bytes.
fn unk(b: &mut &[u8]) -> Option<J> {
    let k = rd_varint(b);
    let n = J::Int((k >> 3) as i64);
    Some(match k & 7 {
        0 => obj! {"n": n, "w": J::Int(0), "p": J::b(&rd_varint(b).to_le_bytes())},
        1 => {
            let p = b[..8].to_vec();
            *b = &b[8..];
            obj! {"n": n, "w": J::Int(1), "p": J::Bytes(p)}
        }
        5 => {
            let p = b[..4].to_vec();
            *b = &b[4..];
            obj! {"n": n, "w": J::Int(5), "p": J::Bytes(p)}
        }
        2 => {
            let l = rd_varint(b) as usize;
            let p = b[..l].to_vec();
            *b = &b[l..];
            obj! {"n": n, "w": J::Int(2), "p": J::Bytes(p)}
        }
        3 => {
            let mut g = vec![];
            while let Some(x) = unk(b) {
                g.push(x);
            }
            obj! {"n": n, "w": J::Int(3), "g": J::Arr(g)}
        }
        _ => return None,
    })
}

pub fn dump_unknown(u: &UnknownField) -> J {
    let mut buf = vec![];
    u.encode(&mut buf);
    if buf.len() != u.encoded_len() {
        return obj! {"t": J::s("bad-len")};
    }
    let wt = u.wire_type() as i64;
    let num = u.number() as i64;
    let mut s = buf.as_slice();
    match unk(&mut s) {
        Some(J::Obj(o)) if s.is_empty() && o[0].1 == J::Int(num) && o[1].1 == J::Int(wt) => J::Obj(o),
        _ => obj! {"t": J::s("bad"), "n": J::Int(num), "w": J::Int(wt)},
    }
}

pub fn dump_msg(m: &DynamicMessage, sorted: bool) -> J {
    let mut es: Vec<(u32, J)> = vec![];
    for (f, v) in m.fields() {
        es.push((f.number(), obj! {"n": J::Int(f.number() as i64), "k": J::s("v"), "v": dump_value(v, sorted)}));
    }
    for (f, v) in m.extensions() {
        es.push((f.number(), obj! {"n": J::Int(f.number() as i64), "k": J::s("v"), "v": dump_value(v, sorted)}));
    }
    let mut us: Vec<(u32, Vec<J>)> = vec![];
    for u in m.unknown_fields() {
        match us.last_mut() {
            Some((n, v)) if *n == u.number() => v.push(dump_unknown(u)),
            _ => us.push((u.number(), vec![dump_unknown(u)])),
        }
    }
    for (n, us) in us {
        es.push((n, obj! {"n": J::Int(n as i64), "k": J::s("u"), "u": J::Arr(us)}));
    }
    es.sort_by_key(|e| e.0);
    obj! {"t": J::s("msg"), "n": J::s(m.descriptor().full_name()), "m": J::Arr(es.into_iter().map(|e| e.1).collect())}
}

/// Either a declared field or an extension.
#[derive(Clone, Debug)]
pub enum Fd {
    F(FieldDescriptor),
    X(ExtensionDescriptor),
}

impl Fd {
    pub fn all(m: &MessageDescriptor) -> Vec<Fd> {
        m.fields().map(Fd::F).chain(m.extensions().map(Fd::X)).collect()
    }
    pub fn number(&self) -> u32 {
        match self {
            Fd::F(f) => f.number(),
            Fd::X(f) => f.number(),
        }
    }
    pub fn kind(&self) -> Kind {
        match self {
            Fd::F(f) => f.kind(),
            Fd::X(f) => f.kind(),
        }
    }
    pub fn is_list(&self) -> bool {
        match self {
            Fd::F(f) => f.is_list(),
            Fd::X(f) => f.is_list(),
        }
    }
    pub fn is_map(&self) -> bool {
        match self {
            Fd::F(f) => f.is_map(),
            Fd::X(f) => f.is_map(),
        }
    }
    pub fn is_group(&self) -> bool {
        match self {
            Fd::F(f) => f.is_group(),
            Fd::X(f) => f.is_group(),
        }
    }
}

#[derive(Clone)]
pub struct Gen {
    pub r: Rng,
    /// maximum nesting of generated messages
    pub depth: u32,
    /// well-known types get values in their documented ranges with this probability (percent)
    pub wkt_valid: u64,
    /// percent of unknown fields in messages
    pub unknown: u64,
    /// percent of repeated/map content being non-empty
    pub nans: bool,
    /// probability of choosing extension fields
    pub ext: u64,
    /// percent chance that an Any contains something that does not decode
    pub any_bad: u64,
    /// never store default values in fields without presence
    pub clean: bool,
    /// percent of malformed records in crafted wire input
    pub wire_bad: u64,
}

const STRS: &[&str] = &[
    "", "a", "hello", "0", "-1", "true", "null", "NaN", "Infinity", "a_b", "aB", "foo_bar.baz_qux", "\"", "\\", "'", "\n\r\t", "\u{0}", "\u{7f}",
    "\u{80}", "\u{7ff}\u{800}", "\u{ffff}", "\u{10000}\u{10ffff}", "é", "日本", "[x]", "#", "\u{1}\u{2}7", "\u{1f}8a", "a'b\"c", " lead", "/", "%",
];

impl Gen {
    pub fn new(r: Rng) -> Gen {
        Gen { r, depth: 3, wkt_valid: 85, unknown: 0, nans: true, ext: 50, any_bad: 10, clean: false, wire_bad: 2 }
    }
    pub fn u64(&mut self) -> u64 {
        match self.r.below(6) {
            0 => self.r.below(3) as u64,
            1 => {
                // around powers of two and of 128
                let s = self.r.below(64);
                (1u64 << s).wrapping_add(self.r.range(-1, 1) as u64)
            }
            2 => u64::MAX - self.r.below(2) as u64,
            3 => *self.r.pick(&[i64::MAX as u64, i64::MIN as u64, i32::MAX as u64, u32::MAX as u64, (i32::MIN as i64) as u64, 1 << 53, (1 << 53) + 1, 9007199254740993]),
            4 => self.r.below(1000) as u64,
            _ => {
                let s = self.r.below(64);
                self.r.next() >> s
            }
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.r.below(6) {
            0 => self.r.below(3) as u32,
            1 => {
                let s = self.r.below(32);
                (1u32 << s).wrapping_add(self.r.range(-1, 1) as u32)
            }
            2 => u32::MAX - self.r.below(2) as u32,
            3 => *self.r.pick(&[i32::MAX as u32, i32::MIN as u32, 127, 128, 16383, 16384]),
            4 => self.r.below(300) as u32,
            _ => {
                let s = self.r.below(32);
                (self.r.next() as u32) >> s
            }
        }
    }
    pub fn f64(&mut self) -> f64 {
        match self.r.below(8) {
            0 => 0.0,
            1 => -0.0,
            2 => *self.r.pick(&[1.0, -1.0, 1.5, 0.1, 100.0, -2.5e-3, 1e21, 1e300, 3.4028234663852886e38, 5e-324, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 9007199254740992.0, 1e15, 1e16, 1e17, 123456789012345680.0]),
            3 if self.nans => *self.r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
            4 => self.r.range(-1000, 1000) as f64,
            5 => self.r.range(-100000, 100000) as f64 / 64.0,
            6 => {
                let x = f64::from_bits(self.r.next());
                if x.is_finite() {
                    x
                } else {
                    7.25
                }
            }
            _ => self.r.range(-1000000, 1000000) as f64 / 1000.0,
        }
    }
    pub fn f32(&mut self) -> f32 {
        match self.r.below(8) {
            0 => 0.0,
            1 => -0.0,
            2 => *self.r.pick(&[1.0, -1.0, 1.5, 0.1, 16777216.0, 1e-45, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 3.4e38, 1e7, f32::from_bits(0x15AE43FD), -f32::from_bits(0x15AE43FD)]),
            3 if self.nans => *self.r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN]),
            4 => self.r.range(-1000, 1000) as f32,
            5 => {
                let x = f32::from_bits(self.r.next() as u32);
                if x.is_finite() {
                    x
                } else {
                    7.25
                }
            }
            _ => self.r.range(-100000, 100000) as f32 / 100.0,
        }
    }
    pub fn string(&mut self) -> String {
        match self.r.below(4) {
            0 => String::new(),
            1 | 2 => (*self.r.pick(STRS)).to_string(),
            _ => {
                let n = self.r.below(4) + 1;
                (0..n).map(|_| *self.r.pick(STRS)).collect()
            }
        }
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        match self.r.below(5) {
            0 => vec![],
            1 => self.string().into_bytes(),
            _ => {
                let n = self.r.below(7) + 1;
                (0..n)
                    .map(|_| match self.r.below(3) {
                        0 => self.r.next() as u8,
                        1 => *self.r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xfe, b'"', b'\\', b'\'', b'?', b'0', b'7', b'8', b'a', b'f', 0x1f, b'\n', b'\t', b'\r']),
                        _ => b'a' + self.r.below(26) as u8,
                    })
                    .collect()
            }
        }
    }
    pub fn enum_num(&mut self, e: &EnumDescriptor) -> i32 {
        if self.r.pct(75) {
            let vs: Vec<i32> = e.values().map(|v| v.number()).collect();
            *self.r.pick(&vs)
        } else {
            self.u32() as i32
        }
    }
    pub fn kind_value(&mut self, k: &Kind, d: u32) -> Value {
        match k {
            Kind::Double => Value::F64(self.f64()),
            Kind::Float => Value::F32(self.f32()),
            Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => Value::I32(self.u32() as i32),
            Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => Value::I64(self.u64() as i64),
            Kind::Uint32 | Kind::Fixed32 => Value::U32(self.u32()),
            Kind::Uint64 | Kind::Fixed64 => Value::U64(self.u64()),
            Kind::Bool => Value::Bool(self.r.pct(50)),
            Kind::String => Value::String(self.string()),
            Kind::Bytes => Value::Bytes(self.bytes().into()),
            Kind::Enum(e) => Value::EnumNumber(self.enum_num(e)),
            Kind::Message(m) => Value::Message(self.msg(m, d.saturating_sub(1))),
        }
    }
    pub fn map_key(&mut self, k: &Kind) -> MapKey {
        self.kind_value(k, 0).into_map_key().expect("map key kind")
    }
    pub fn value(&mut self, f: &Fd, d: u32) -> Value {
        let n = *self.r.pick(&[0usize, 1, 1, 2, 2, 3, 4]);
        let n = if d == 0 { n.min(1) } else { n };
        if f.is_map() {
            let k = f.kind();
            let e = k.as_message().unwrap();
            let (kk, vk) = (e.map_entry_key_field().kind(), e.map_entry_value_field().kind());
            let mut m = HashMap::new();
            if d > 0 || vk.as_message().is_none() {
                for _ in 0..n {
                    m.insert(self.map_key(&kk), self.kind_value(&vk, d));
                }
            }
            Value::Map(m)
        } else if f.is_list() {
            let k = f.kind();
            let n = if d == 0 && k.as_message().is_some() { 0 } else { n };
            Value::List((0..n).map(|_| self.kind_value(&k, d)).collect())
        } else {
            // often the default
            if self.r.pct(15) {
                match f {
                    Fd::F(f) => return Value::default_value_for_field(f),
                    Fd::X(f) => return Value::default_value_for_extension(f),
                }
            }
            self.kind_value(&f.kind(), d)
        }
    }
    pub fn set(m: &mut DynamicMessage, f: &Fd, v: Value) {
        match f {
            Fd::F(f) => m.set_field(f, v),
            Fd::X(f) => m.set_extension(f, v),
        }
    }
    pub fn msg(&mut self, desc: &MessageDescriptor, d: u32) -> DynamicMessage {
        let mut m = DynamicMessage::new(desc.clone());
        if let Some(m) = self.wkt(desc, d) {
            return m;
        }
        let fs = Fd::all(desc);
        if fs.is_empty() {
            return m;
        }
        let n = match self.r.below(6) {
            0 => 0,
            1 => 1,
            2 | 3 => 2,
            4 => 3,
            _ => {
                if d >= self.depth {
                    fs.len()
                } else {
                    4
                }
            }
        };
        let n = if d == 0 { n.min(2) } else { n };
        for _ in 0..n {
            let f = if self.r.pct(self.ext) { self.r.pick(&fs).clone() } else {
                let nf = desc.fields().len();
                if nf == 0 { self.r.pick(&fs).clone() } else { fs[self.r.below(nf)].clone() }
            };
            if d == 0 && f.kind().as_message().is_some() {
                continue;
            }
            let v = self.value(&f, d);
            if self.clean && (match &f { Fd::F(f) => !f.supports_presence() && v.is_default_for_field(f), Fd::X(f) => !f.supports_presence() && v.is_default_for_extension(f) }) {
                continue;
            }
            Gen::set(&mut m, &f, v);
        }
        if self.unknown > 0 && self.r.pct(self.unknown) {
            let mut b = vec![];
            for _ in 0..self.r.below(3) + 1 {
                self.unknown_field(desc, 2, &mut b);
            }
            let _ = m.merge(b.as_slice());
        }
        m
    }
    /// bytes of a field whose number is not declared by the message
    pub fn unknown_field(&mut self, desc: &MessageDescriptor, d: u32, out: &mut Vec<u8>) {
        let mut n;
        loop {
            n = *self.r.pick(&[1u32, 2, 3, 15, 16, 19, 2047, 2048, 18999, 19000, 200, 201, 536870911, 536870900, 77, 78]);
            if desc.get_field(n).is_none() && desc.get_extension(n).is_none() {
                break;
            }
        }
        self.raw_field(n, d, out);
    }
    pub fn raw_field(&mut self, n: u32, d: u32, out: &mut Vec<u8>) {
        use crate::wire::*;
        match self.r.below(if d == 0 { 4 } else { 6 }) {
            0 => {
                key(n, 0, out);
                varint(self.u64(), out);
            }
            1 => {
                key(n, 1, out);
                out.extend(self.r.next().to_le_bytes());
            }
            2 => {
                key(n, 5, out);
                out.extend((self.r.next() as u32).to_le_bytes());
            }
            3 => put_bytes(n, &self.bytes(), out),
            4 => {
                // length-delimited content that is itself decodable
                let mut b = vec![];
                for _ in 0..self.r.below(3) {
                    let k = *self.r.pick(&[1u32, 2, 5, 300]);
                    self.raw_field(k, d - 1, &mut b);
                }
                put_bytes(n, &b, out)
            }
            _ => {
                key(n, 3, out);
                for _ in 0..self.r.below(3) {
                    let k = *self.r.pick(&[1u32, 2, 5, 300]);
                    self.raw_field(k, d - 1, out);
                }
                key(n, 4, out);
            }
        }
    }
    fn wkt(&mut self, desc: &MessageDescriptor, d: u32) -> Option<DynamicMessage> {
        if self.clean || !self.r.pct(self.wkt_valid) {
            return None;
        }
        let mut m = DynamicMessage::new(desc.clone());
        match desc.full_name() {
            "google.protobuf.Timestamp" => {
                let s = match self.r.below(5) {
                    0 => 0,
                    1 => *self.r.pick(&[-62135596800i64, 253402300799, -1, 1, 951782400, 951868799, 68169600, -2208988800, 1583020799, 4107542399, -62135596799]),
                    2 => self.r.range(-62135596800, 253402300799),
                    3 => self.r.range(-100000000, 2000000000),
                    _ => self.r.range(-62135596800 / 86400, 253402300799 / 86400) * 86400 + self.r.range(0, 86399),
                };
                m.set_field_by_number(1, Value::I64(s));
                let n = self.nanos();
                m.set_field_by_number(2, Value::I32(n));
            }
            "google.protobuf.Duration" => {
                let s = match self.r.below(4) {
                    0 => 0,
                    1 => *self.r.pick(&[315576000000i64, -315576000000, 1, -1, 60]),
                    _ => self.r.range(-1000000, 1000000),
                };
                let n = self.nanos();
                let n = if s < 0 || (s == 0 && self.r.pct(50)) { -n } else { n };
                m.set_field_by_number(1, Value::I64(s));
                m.set_field_by_number(2, Value::I32(n));
            }
            "google.protobuf.FieldMask" => {
                let n = self.r.below(4);
                let ps = (0..n)
                    .map(|_| Value::String((*self.r.pick(&["a", "foo_bar", "a_b_c", "x.y_z", "foo.bar_baz.q", "a1", "_a", "a.b", "f_1"])).to_string()))
                    .collect();
                m.set_field_by_number(1, Value::List(ps));
            }
            "google.protobuf.Value" => {
                let k = *self.r.pick(&if d == 0 { [1u32, 2, 3, 4, 3, 2] } else { [1u32, 2, 3, 4, 5, 6] });
                let f = desc.get_field(k)?;
                let v = match k {
                    1 => Value::EnumNumber(0),
                    2 => {
                        let mut x = self.f64();
                        if !x.is_finite() {
                            x = 3.5
                        }
                        Value::F64(x)
                    }
                    _ => self.kind_value(&f.kind(), d),
                };
                m.set_field_by_number(k, v);
            }
            "google.protobuf.Any" => {
                let pool = desc.parent_pool();
                const TYS: &[&str] = &["v.k3.Scalars", "v.k3.Tree", "v.kw.Wk", "v.k3.Empty", "google.protobuf.Timestamp", "google.protobuf.Value", "google.protobuf.Int64Value",
                    "google.protobuf.Any", "google.protobuf.Struct", "google.protobuf.Empty", "google.protobuf.FieldMask", "google.protobuf.Duration", "v.kx.Sub", "v.k2.Plain", "v.k3.Names", "google.protobuf.StringValue", "v.k2.Base"];
                if d == 0 || self.r.pct(10) {
                    return Some(m);
                }
                let tys: Vec<_> = TYS.iter().filter_map(|t| pool.get_message_by_name(t)).collect();
                if tys.is_empty() {
                    return None;
                }
                let t = self.r.pick(&tys).clone();
                let name = t.full_name().to_string();
                let v = self.msg(&t, d.saturating_sub(1));
                let pre = *self.r.pick(&["type.googleapis.com/", "type.googleapis.com/", "example.com/", "a/b/", "/", "x-y.com/", "Ex_9.Com/", "A/", "_a.B/"]);
                if self.r.pct(self.any_bad) {
                    let u = match self.r.below(4) {
                        0 => format!("{pre}no.Such"),
                        1 => String::new(),
                        2 => name.clone(),
                        _ => format!("{pre}{name}"),
                    };
                    m.set_field_by_number(1, Value::String(u));
                    m.set_field_by_number(2, Value::Bytes(self.bytes().into()));
                } else {
                    m.set_field_by_number(1, Value::String(format!("{pre}{name}")));
                    m.set_field_by_number(2, Value::Bytes(v.encode_to_vec().into()));
                }
            }
            _ => return None,
        }
        Some(m)
    }
    fn nanos(&mut self) -> i32 {
        match self.r.below(5) {
            0 => 0,
            1 => *self.r.pick(&[1, 999999999, 1000, 1000000, 500000000, 100000000, 999000000, 999999000]),
            2 => self.r.range(0, 999) as i32 * 1000000,
            3 => self.r.range(0, 999999) as i32 * 1000,
            _ => self.r.range(0, 999999999) as i32,
        }
    }
}
