//! Systematic sweeps: every field of the fixed schemas against every value, record or literal of a table.
use crate::{msg::*, text, val::*, wire::*};
use prost_reflect::*;
use std::collections::HashMap;

const TYPES: &[&str] = &["v.k3.Scalars", "v.k3.Opt", "v.k3.Rep", "v.k3.Maps", "v.k3.One", "v.k3.Names", "v.k2.Base", "v.k2.Holder", "v.k2.Base.Grp", "v.kx.Sub", "v.kw.Wk"];
const WKT: &[&str] = &["Timestamp", "Duration", "FieldMask", "Empty", "Struct", "Value", "ListValue", "Any", "DoubleValue", "FloatValue", "Int64Value", "UInt64Value", "Int32Value", "UInt32Value", "BoolValue", "StringValue", "BytesValue"];

fn targets(w: &World) -> Vec<(MessageDescriptor, Fd)> {
    let mut v = vec![];
    for t in TYPES {
        if let Some(t) = w.pool.get_message_by_name(t) {
            for f in Fd::all(&t) {
                v.push((t.clone(), f));
            }
        }
    }
    v
}

/// numbers no field of these types has
const STRANGE: &[u32] = &[18, 99, 127, 2047, 2048, 18999, 19500, 262143, 262144, 536870911];
const STRANGERS: &[&str] = &["v.k3.Empty", "v.k2.Plain", "v.k3.One", "v.k2.Base.Grp"];

/// how many cases a sweep has
pub fn total(profile: &str, w: &World) -> usize {
    match profile {
        "W01" | "W02" | "W03" | "W04" | "M01" | "M03" | "M04" | "J01" | "J02" | "J03" | "T01" | "T02" | "T03" => targets(w).len(),
        "M05" => targets(w).iter().filter(|t| matches!(t.1, Fd::X(_))).count(),
        "M02" => pairs(w).len(),
        "W05" => STRANGE.len() * STRANGERS.len(),
        "J04" => WKT.len() + targets(w).iter().filter(|t| special(&t.1)).count(),
        _ => 0,
    }
}

/// a field whose JSON form is one of the special ones
fn special(f: &Fd) -> bool {
    let wkt = |k: &Kind| match k {
        Kind::Message(m) => m.full_name().starts_with("google.protobuf."),
        Kind::Enum(e) => e.full_name().starts_with("google.protobuf."),
        _ => false,
    };
    match f.kind() {
        Kind::Message(m) if m.is_map_entry() => wkt(&m.map_entry_value_field().kind()),
        k => wkt(&k),
    }
}

/// ordered pairs of members of one oneof
fn pairs(w: &World) -> Vec<(MessageDescriptor, FieldDescriptor, FieldDescriptor)> {
    let mut v = vec![];
    for t in ["v.k3.One", "v.k3.Tree", "v.k2.Base", "v.kw.Wk", "google.protobuf.Value", "v.k3.Opt"] {
        if let Some(t) = w.pool.get_message_by_name(t) {
            for o in t.oneofs() {
                for a in o.fields() {
                    for b in o.fields() {
                        v.push((t.clone(), a.clone(), b));
                    }
                }
            }
        }
    }
    v
}

// ---- values ----
fn scalars(g: &mut Gen, k: &Kind) -> Vec<Value> {
    match k {
        Kind::Double => [0.0, -0.0, 1.0, -1.5, 0.1, 1e15, 1e16, 1e17, 1e21, 1.7976931348623157e308, 5e-324, 123456789.125, f64::NAN, f64::INFINITY, f64::NEG_INFINITY].iter().map(|x| Value::F64(*x)).collect(),
        Kind::Float => [0.0, -0.0, 1.0, -1.5, 0.1, 16777216.0, 1e10, 3.4028235e38, 1e-45, f32::NAN, f32::INFINITY, f32::NEG_INFINITY].iter().map(|x| Value::F32(*x)).collect(),
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => [0, 1, -1, 127, 128, -64, -65, i32::MAX, i32::MIN].iter().map(|x| Value::I32(*x)).collect(),
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => [0, 1, -1, 1 << 31, 1 << 32, 1 << 53, i64::MAX, i64::MIN].iter().map(|x| Value::I64(*x)).collect(),
        Kind::Uint32 | Kind::Fixed32 => [0, 1, 127, 128, 1 << 31, u32::MAX].iter().map(|x| Value::U32(*x)).collect(),
        Kind::Uint64 | Kind::Fixed64 => [0, 1, 1 << 32, 1 << 53, 1 << 63, u64::MAX].iter().map(|x| Value::U64(*x)).collect(),
        Kind::Bool => vec![Value::Bool(false), Value::Bool(true)],
        Kind::String => ["", "a", "true", "\"", "\\", "'", "\n\r\t", "\u{0}", "\u{1}7", "\u{7f}", "\u{80}", "é", "日本", "\u{10ffff}", " ", "/", "</", "\u{2028}", "a'b\"c"].iter().map(|x| Value::String(x.to_string())).collect(),
        Kind::Bytes => [&b""[..], b"a", b"\0", b"\xff", b"\xfb\xff\xfe", b"\"'\\", b"\n\r\t", b"\x01\x37", b"\x7f\x80", b"?>", b"ab", b"abc", b"\xc3\xa9"].iter().map(|x| Value::Bytes(x.to_vec().into())).collect(),
        Kind::Enum(e) => {
            let mut v: Vec<i32> = e.values().map(|v| v.number()).collect();
            v.extend([0, 1, -1, 12345, i32::MAX, i32::MIN]);
            v.sort();
            v.dedup();
            v.into_iter().map(Value::EnumNumber).collect()
        }
        Kind::Message(m) => {
            let mut v = vec![Value::Message(DynamicMessage::new(m.clone()))];
            for _ in 0..4 {
                v.push(Value::Message(g.msg(m, 1)));
            }
            v
        }
    }
}

/// values a field can hold
fn values(g: &mut Gen, f: &Fd) -> Vec<Value> {
    if f.is_map() {
        let k = f.kind();
        let e = k.as_message().unwrap();
        let ks = scalars(g, &e.map_entry_key_field().kind());
        let vs = scalars(g, &e.map_entry_value_field().kind());
        let key = |v: &Value| v.clone().into_map_key().unwrap();
        let mut out = vec![Value::Map(HashMap::new())];
        for k in &ks {
            out.push(Value::Map([(key(k), vs[vs.len() / 2].clone())].into_iter().collect()));
        }
        for v in &vs {
            out.push(Value::Map([(key(&ks[1]), v.clone())].into_iter().collect()));
        }
        out.push(Value::Map(ks.iter().enumerate().map(|(i, k)| (key(k), vs[i % vs.len()].clone())).collect()));
        out
    } else if f.is_list() {
        let vs = scalars(g, &f.kind());
        let mut out = vec![Value::List(vec![])];
        out.extend(vs.iter().map(|v| Value::List(vec![v.clone()])));
        out.push(Value::List(vec![vs[0].clone(), vs[0].clone()]));
        out.push(Value::List(vs));
        out
    } else {
        let mut vs = scalars(g, &f.kind());
        vs.push(match f {
            Fd::F(f) => Value::default_value_for_field(f),
            Fd::X(f) => Value::default_value_for_extension(f),
        });
        vs
    }
}

/// values of every type, fitting or not
fn any_values(g: &mut Gen, w: &World, f: &Fd) -> Vec<Value> {
    let k = f.kind();
    let mut v = vec![Value::Bool(true), Value::I32(-1), Value::I64(0), Value::U32(1), Value::U64(0), Value::F32(1.5), Value::F64(0.0), Value::String("".into()), Value::Bytes(vec![1].into()), Value::EnumNumber(0), Value::EnumNumber(77)];
    for n in ["v.k3.Empty", "v.k3.Opt", "v.k2.Base", "google.protobuf.Value"] {
        v.push(Value::Message(DynamicMessage::new(w.ty(n))));
    }
    if let Kind::Message(m) = &k {
        v.push(Value::Message(DynamicMessage::new(m.clone())));
    }
    let singles = v.clone();
    for s in &singles {
        v.push(Value::List(vec![s.clone()]));
    }
    v.push(Value::List(vec![]));
    v.push(Value::Map(HashMap::new()));
    let own = scalars(g, &k);
    for s in &singles {
        // the last element is the odd one
        v.push(Value::List(vec![own[0].clone(), s.clone()]));
    }
    let keys = [MapKey::Bool(true), MapKey::I32(1), MapKey::I64(1), MapKey::U32(1), MapKey::U64(1), MapKey::String("k".into())];
    if let Kind::Message(m) = &k {
        if m.is_map_entry() {
            let vk = m.map_entry_value_field().kind();
            let kk = m.map_entry_key_field().kind();
            let own = scalars(g, &vk)[0].clone();
            let ownk = scalars(g, &kk)[1].clone().into_map_key().unwrap();
            for k in &keys {
                v.push(Value::Map([(k.clone(), own.clone())].into_iter().collect()));
            }
            for s in &singles {
                v.push(Value::Map([(ownk.clone(), s.clone())].into_iter().collect()));
            }
            v.push(Value::Map([(ownk, Value::List(vec![own]))].into_iter().collect()));
        }
    } else {
        for k in &keys {
            v.push(Value::Map([(k.clone(), own[0].clone())].into_iter().collect()));
        }
    }
    v
}

// ---- records ----
fn hex(s: &str) -> Vec<u8> {
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
const VARINT: &[&str] = &["00", "01", "02", "07", "7f", "8001", "ffffffff07", "8080808008", "ffffffff0f", "8080808010", "ffffffffffffffff7f", "80808080808080808001", "ffffffffffffffffff01", "8000", "8180808080808080808000", "80808080808080808002",
    "ffffffffffffffffffff01", "80", "", "fbffffffffffffffff01"];
const FIXED64: &[&str] = &["0000000000000000", "0100000000000000", "ffffffffffffffff", "000000000000f03f", "0000000000000080", "010000000000f87f", "00000000000000"];
const FIXED32: &[&str] = &["00000000", "01000000", "ffffffff", "0000803f", "00000080", "0100c07f", "000000"];
/// payloads; the length goes before
const LEN: &[&str] = &["", "61", "00", "01", "80", "ff", "c3a9", "c3", "0800", "0801", "1200", "1001", "0a00", "0a0161", "08011002", "1002080110030804", "0a01611201620a0163", "01020304", "0000803f000000c0", "000000000000f03f0000000000000080", "8001ff01",
    "ffffffffffffffffff01", "0b0c", "0b", "08", "0f", "000000", "0d0000803f", "090000000000000000", "0800a00601", "120261", "1203080165", "0a030102", "2a00"];
const GROUP: &[&str] = &["E", "0801E", "0b0cE", "0a0161E", "120210011a00E", "", "0801", "0c", "080E", "0801E0801", "a006010bE"];

/// the record of field n with each wire type and payload
fn records(n: u32) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut rec = |wt: u8, p: Vec<u8>| {
        let mut b = vec![];
        key(n, wt, &mut b);
        b.extend(p);
        v.push(b);
    };
    for p in VARINT {
        rec(0, hex(p));
    }
    for p in FIXED64 {
        rec(1, hex(p));
    }
    for p in FIXED32 {
        rec(5, hex(p));
    }
    for p in LEN {
        let mut b = vec![];
        varint(hex(p).len() as u64, &mut b);
        b.extend(hex(p));
        rec(2, b);
    }
    for p in ["05 0000", "81000061", "ffffffff0f", "ffffffffffffffffff01", "81 8080", ""] {
        rec(2, hex(p));
    }
    let mut end = vec![];
    key(n, 4, &mut end);
    for p in GROUP {
        let mut b = vec![];
        for (i, x) in p.split('E').enumerate() {
            if i > 0 {
                b.extend(&end);
            }
            // an odd half is a truncated record
            b.extend(hex(x));
        }
        rec(3, b);
    }
    rec(4, vec![]);
    rec(6, vec![0]);
    rec(7, vec![0]);
    v
}

fn how(t: &Fd) -> &'static str {
    match t {
        Fd::F(_) => "desc",
        Fd::X(_) => "ext",
    }
}

fn holding(c: &mut Case, t: &MessageDescriptor, f: &Fd, v: Value) {
    c.new_msg(0, t);
    c.set_with(0, f, how(f), f.number() as i64, String::new(), v, false);
}

// ---- literals ----
const NUMS: &[&str] = &["0", "-0", "1", "-1", "1.0", "1.5", "-1.5", "0.1", "1e2", "1E+2", "100e-2", "15e-1", "127", "128", "255", "256", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
    "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e10", "1e19", "1e20", "3.4028235e38", "3.5e38", "-3.5e38", "1e-46", "1.7976931348623157e308", "5e-324", "16777217", "9007199254740993", "2147483647.0", "2147483648.0", "4294967296.0", "0.30000001192092896"];
const STRS: &[&str] = &["", "a", "NaN", "nan", "Infinity", "-Infinity", "inf", "+1", " 1", "1 ", "0x1", "01", "true", "false", "TRUE", "null", "E_ONE", "E_ZERO", "E_FIVE", "e_one", "A_NIL", "NULL_VALUE", "AA==", "AA", "AAA=", "AAAA", "A", "A===", "__-_", "//+/", "AB==", "AA= =", "\n", "é", "\u{1f600}",
    "1s", "1.5s", "-1.5s", "0s", "-0.5s", "1.0000000001s", "1.000000001s", "315576000000s", "315576000001s", "-315576000000.999999999s", "1", "s", ".5s", "1.s", "+1s", "1S", "1 s", "--1s",
    "1970-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999Z", "0000-12-31T23:59:59Z", "10000-01-01T00:00:00Z", "1970-01-01T00:00:00", "1970-01-01T00:00:00+00:00", "1970-01-01T01:30:00+01:30", "1969-12-31T23:59:59.5Z", "1970-01-01T00:00:00.1234567891Z", "2000-02-29T00:00:00Z", "1900-02-29T00:00:00Z", "2021-02-29T00:00:00Z", "1970-13-01T00:00:00Z", "1970-00-01T00:00:00Z",
    "1970-01-32T00:00:00Z", "1970-04-31T00:00:00Z", "1970-01-01T24:00:00Z", "1970-01-01T23:60:00Z", "1970-01-01t00:00:00z", "1970-01-01T00:00:00-00:00", "0001-01-01T00:00:00+00:01", "9999-12-31T23:59:59-00:01", "1970-1-1T00:00:00Z",
    "a,b", "a.b,cD", "aB", "a_b", "A", ",", "a,", ",a", "a..b", "fooBar.bazQux,x", "a b", "type.googleapis.com/v.k3.Empty"];
const TREES: &[&str] = &["null", "true", "false", "[]", "{}", "[null]", "[1]", "[\"a\"]", "[true,false]", "[[]]", "[{}]", "[1,null]", "{\"a\":1}", "{\"a\":null}", "{\"1\":1}", "{\"true\":true}", "{\"value\":1}", "{\"k\":{}}", "{\"k\":[]}", "{\"k\":\"E_ONE\"}", "{\"k\":\"1s\"}",
    "{\"@type\":\"type.googleapis.com/v.k3.Empty\"}", "{\"@type\":\"x/v.k3.Opt\",\"i32\":1}", "{\"i32\":1,\"@type\":\"x/v.k3.Opt\"}", "{\"@type\":\"x/google.protobuf.Duration\",\"value\":\"1s\"}", "{\"@type\":\"x/google.protobuf.Duration\"}", "{\"@type\":\"x/google.protobuf.Value\",\"value\":null}",
    "{\"@type\":\"x/google.protobuf.Empty\",\"value\":{}}", "{\"@type\":\"v.k3.Empty\"}", "{\"@type\":\"x/no.Such\"}", "{\"@type\":1}", "{\"@type\":null}", "{\"@type\":\"x/v.k3.Empty\",\"nope\":1}", "{\"@type\":\"/v.k3.Empty\"}", "{\"@type\":\"a/b/v.k3.Empty\"}", "{\"value\":1,\"@type\":\"x/google.protobuf.Int64Value\"}",
    "{\"@type\":\"x/google.protobuf.Int64Value\",\"value\":\"9223372036854775807\"}", "{\"@type\":\"x/google.protobuf.Any\",\"value\":{\"@type\":\"x/v.k3.Empty\"}}", "{\"@type\":\"x/google.protobuf.Any\",\"value\":{}}", "{\"seconds\":1}", "{\"paths\":[\"a\"]}", "{\"fields\":{}}", "{\"values\":[]}"];

fn literals() -> Vec<String> {
    let mut v: Vec<String> = TREES.iter().chain(NUMS).map(|s| s.to_string()).collect();
    for s in NUMS.iter().chain(STRS) {
        v.push(serde_json::to_string(s).unwrap());
    }
    v
}
const KEYS: &[&str] = &["", "0", "1", "-1", "true", "false", "True", "01", "+1", "1.0", "1e0", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "a", "é"];

fn json_docs(f: &Fd) -> Vec<String> {
    let name = match f {
        Fd::F(f) => f.json_name().to_string(),
        Fd::X(e) => format!("[{}]", e.full_name()),
    };
    let name = serde_json::to_string(&name).unwrap();
    let mut v = vec![];
    for l in literals() {
        v.push(format!("{{{name}:{l}}}"));
        if f.is_list() {
            v.push(format!("{{{name}:[{l}]}}"));
        }
        if f.is_map() {
            v.push(format!("{{{name}:{{\"1\":{l}}}}}"));
            v.push(format!("{{{name}:{{\"true\":{l}}}}}"));
        }
    }
    if f.is_map() {
        for k in KEYS {
            for l in ["1", "true", "\"\"", "{}", "\"1s\""] {
                v.push(format!("{{{name}:{{{}:{l}}}}}", serde_json::to_string(k).unwrap()));
            }
        }
    }
    v
}

const TEXTS: &[&str] = &["0", "-0", "1", "-1", "- 1", "--1", "+1", "00", "01", "07", "08", "0x0", "0x", "0xg", "0X1F", "-0x1", "0x7fffffff", "0x80000000", "-0x80000000", "-0x80000001", "0xffffffff", "0x100000000", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "017777777777", "020000000000", "037777777777", "040000000000",
    "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "0xffffffffffffffff", "0x10000000000000000", "01777777777777777777777", "02000000000000000000000", "1_0", "1.0", "1.", ".5", "-.5", ".", "1e3", "1E+3", "1e-3", "1e", "1.5f", "1F", "1f", "0f", "01f", "0x1f", "1e400", "-1e400", "1e-400", "3.5e38", "1.0.0", "1.5e3f",
    "inf", "-inf", "INF", "Infinity", "- infinity", "nan", "-nan", "NaN", "infx", "true", "false", "True", "False", "TRUE", "t", "f", "T", "F", "E_ONE", "E_ZERO", "E_FIVE", "E_SEVEN", "e_one", "A_NIL", "NOPE", "-E_ONE", "NULL_VALUE", "12345",
    "\"\"", "\"a\"", "'a'", "\"a'b\"", "'a\"b'", "\"a\" \"b\"", "\"a\" 'b' \"c\"", "\"a", "'a\"", "\"\\n\\r\\t\\a\\b\\f\\v\\\\\\'\\\"\\?\"", "\"\\x41\"", "\"\\x4\"", "\"\\xff\"", "\"\\x\"", "\"\\101\"", "\"\\1\"", "\"\\18\"", "\"\\377\"", "\"\\400\"", "\"\\8\"", "\"\\u00e9\"", "\"\\u00e\"", "\"\\ud800\"", "\"\\ud83d\\ude00\"", "\"\\U0001F600\"", "\"\\U00110000\"", "\"\\U1\"", "\"\\q\"", "\"\\\"", "\"é\"", "\"\\303\\251\"", "\"\\303\"", "\"\n\"", "\"\\\n\"",
    "{}", "<>", "{ }", "{>", "<}", "{", "}", "[]", "[ ]", "[", "[1]", "[1,2]", "[1 2]", "[1,]", "[,1]", "[\"a\"]", "[\"a\" \"b\", 'c']", "[{}]", "[{},<>]", "[{} {}]", "[[]]", "[E_ONE]", "[true,0]", "[0.5, 1f]", "{key: 1 value: 2}", "{key: \"a\"}", "{value: 2}", "<key: true>", "[{key: 1} {key: 2}]", "[{key: 1}, {key: 1 value: 3}]", "{key: 1, value: 2;}", "{key: 1 key: 2}", "{nope: 1}", "{1: 1}", "{i32: 1}", "{x: 1}", "{seconds: 1}", "", "1 # c", "# c\n 1", "1,", "1;", "1,;", "1;;", "1 1"];

fn texts(f: &Fd) -> Vec<String> {
    let name = match f {
        Fd::F(f) if f.is_group() => f.kind().as_message().unwrap().name().to_string(),
        Fd::F(f) => f.name().to_string(),
        Fd::X(e) => format!("[{}]", e.full_name()),
    };
    let mut v = vec![];
    for l in TEXTS {
        v.push(format!("{name}: {l}"));
        if l.starts_with(['{', '<', '[']) || l.is_empty() {
            v.push(format!("{name} {l}"));
        }
    }
    for l in ["1", "\"a\"", "{}", "[]", "true", "E_ZERO", "[1]", "[{}]"] {
        v.push(format!("{name}: {l} {name}: {l}"));
        v.push(format!("{name}{l}"));
        v.push(format!("{name}:{l},{name}:{l};"));
    }
    v
}

pub fn run(profile: &str, c: &mut Case, n: usize) {
    c.g.wkt_valid = 90;
    c.g.unknown = 0;
    let w = c.w;
    if profile == "M02" {
        return pair(c, &pairs(w)[n]);
    }
    if profile == "W05" {
        let t = w.ty(STRANGERS[n / STRANGE.len()]);
        let rs = records(STRANGE[n % STRANGE.len()]);
        let mut last: Vec<u8> = vec![];
        for b in rs {
            c.dec(0, &t, &b, false);
            if c.regs[0].is_none() {
                continue;
            }
            c.op_list(0);
            if let Some(b) = c.enc(0) {
                c.dec(1, &t, &b, false);
                c.same(0, 1);
            }
            c.merge(0, &last);
            c.enc(0);
            last = b;
        }
        return;
    }
    let ts = targets(w);
    if profile == "J04" {
        let deny = n % 2 == 0;
        if n < WKT.len() {
            let t = w.ty(&format!("google.protobuf.{}", WKT[n]));
            for l in literals() {
                c.unjson(0, &t, &l, true, deny);
            }
            return;
        }
        let (t, f) = ts.iter().filter(|t| special(&t.1)).nth(n - WKT.len()).unwrap().clone();
        for d in json_docs(&f) {
            c.unjson(0, &t, &d, true, deny);
        }
        return;
    }
    let (t, f) = if profile == "M05" { ts.into_iter().filter(|t| matches!(t.1, Fd::X(_))).nth(n).unwrap() } else { ts[n].clone() };
    let num = f.number() as i64;
    match profile {
        "W03" => {
            for b in records(f.number()) {
                c.dec(0, &t, &b, false);
            }
        }
        "W04" => {
            // a few that decode to different content
            let mut seen = std::collections::HashSet::new();
            let mut all: Vec<Vec<u8>> = vec![];
            for b in records(f.number()) {
                if let Some(Ok(m)) = guard(|| DynamicMessage::decode(t.clone(), b.as_slice())) {
                    if seen.insert(dump_msg(&m, true).text()) {
                        all.push(b);
                    }
                }
            }
            // those the field itself takes come first
            all.sort_by_key(|b| guard(|| DynamicMessage::decode(t.clone(), b.as_slice()).unwrap().unknown_fields().count()).unwrap_or(0));
            let k = all.len();
            let pick: Vec<_> = if k <= 5 { all } else { [0, 1, 2, k / 3, k / 2].iter().map(|i| all[*i].clone()).collect() };
            for a in &pick {
                for b in &pick {
                    c.dec(0, &t, a, false);
                    if c.regs[0].is_none() {
                        continue;
                    }
                    c.merge(0, b);
                    c.dec(1, &t, &[a.as_slice(), b].concat(), false);
                    c.same(0, 1);
                }
            }
        }
        "W02" => {
            for v in guard(|| values(&mut c.g, &f)).unwrap_or_default() {
                holding(c, &t, &f, v);
                c.enc(0);
            }
            // fields in between
            if c.load(1, &t) {
                for v in guard(|| values(&mut c.g, &f)).unwrap_or_default() {
                    c.set_with(1, &f, how(&f), num, String::new(), v, false);
                    c.enc(1);
                }
            }
        }
        "M03" => {
            for v in guard(|| values(&mut c.g, &f)).unwrap_or_default() {
                holding(c, &t, &f, v);
                c.op_list(0);
                c.get_with(0, &f, how(&f), num, String::new());
                c.enc(0);
                c.json_with(0, (true, false, false, true));
                c.text_with(0, text::Opts { pretty: false, ..text::Opts::DEFAULT });
            }
        }
        "W01" => {
            for v in guard(|| values(&mut c.g, &f)).unwrap_or_default() {
                holding(c, &t, &f, v);
                if let Some(b) = c.enc(0) {
                    c.dec(1, &t, &b, false);
                    c.enc(1);
                }
            }
        }
        "M01" | "M05" => {
            let nm = match &f {
                Fd::F(f) => f.name().to_string(),
                _ => String::new(),
            };
            let bys: &[&'static str] = if matches!(f, Fd::X(_)) { &["ext"] } else { &["desc", "num", "name"] };
            for (i, v) in guard(|| values(&mut c.g, &f)).unwrap_or_default().into_iter().enumerate() {
                let by = |k: usize| bys[(i + k) % bys.len()];
                c.new_msg(0, &t);
                c.get_with(0, &f, by(0), num, nm.clone());
                c.set_with(0, &f, by(0), num, nm.clone(), v, i % 2 == 0 && by(0) != "ext");
                c.get_with(0, &f, by(1), num, nm.clone());
                c.op_list(0);
                c.clear_with(0, &f, by(2), num, nm.clone(), i % 2 == 1);
                c.get_with(0, &f, by(2), num, nm.clone());
            }
            if profile == "M05" {
                for v in guard(|| values(&mut c.g, &f)).unwrap_or_default() {
                    holding(c, &t, &f, v);
                    if let Some(b) = c.enc(0) {
                        c.dec(1, &t, &b, false);
                        c.merge(1, &b);
                    }
                    if let Some(s) = c.json_with(0, (true, false, false, true)) {
                        c.unjson(1, &t, &s, true, true);
                    }
                    if let Some(s) = c.text_with(0, text::Opts { pretty: false, ..text::Opts::DEFAULT }) {
                        c.untext(1, &t, &s);
                    }
                }
                for v in guard(|| any_values(&mut c.g, w, &f)).unwrap_or_default() {
                    c.valq_with(&t, &f, v);
                }
            }
        }
        "M04" => {
            for (i, v) in guard(|| any_values(&mut c.g, w, &f)).unwrap_or_default().into_iter().enumerate() {
                c.valq_with(&t, &f, v.clone());
                if matches!(f, Fd::F(_)) {
                    if i % 8 == 0 {
                        c.new_msg(0, &t);
                    }
                    c.set_with(0, &f, "desc", num, String::new(), v, true);
                }
            }
        }
        "J01" | "J02" => {
            for (i, v) in guard(|| values(&mut c.g, &f)).unwrap_or_default().into_iter().enumerate() {
                holding(c, &t, &f, v);
                let os: Vec<usize> = if profile == "J01" { vec![1, i % 16] } else { vec![i % 16, (i + 5) % 16, (i + 10) % 16] };
                for o in os {
                    if let Some(s) = c.json_with(0, (o & 1 != 0, o & 2 != 0, o & 4 != 0, o & 8 != 0)) {
                        if profile == "J01" && c.unjson(1, &t, &s, false, true) {
                            c.jround(0, 1);
                        }
                    }
                }
            }
        }
        "J03" => {
            for d in json_docs(&f) {
                c.unjson(0, &t, &d, true, true);
            }
        }
        "T01" | "T03" => {
            for (i, v) in guard(|| values(&mut c.g, &f)).unwrap_or_default().into_iter().enumerate() {
                holding(c, &t, &f, v);
                let o = text::Opts { pretty: i % 2 == 1, ..text::Opts::DEFAULT };
                if let Some(s) = c.text_with(0, o) {
                    if profile == "T01" {
                        c.untext(1, &t, &s);
                        c.tround(0, 1);
                    } else {
                        c.text(0);
                    }
                }
            }
        }
        "T02" => {
            for s in texts(&f) {
                c.untext(0, &t, &s);
            }
        }
        _ => {}
    }
}

/// one member of a oneof after another, in every way
fn pair(c: &mut Case, (t, a, b): &(MessageDescriptor, FieldDescriptor, FieldDescriptor)) {
    let (fa, fb) = (Fd::F(a.clone()), Fd::F(b.clone()));
    let vals = |c: &mut Case, f: &Fd| {
        let v = guard(|| values(&mut c.g, f)).unwrap_or_default();
        vec![v[0].clone(), v[v.len() / 2].clone()]
    };
    let (va, vb) = (vals(c, &fa), vals(c, &fb));
    let bytes = |f: &Fd, v: &Value| {
        guard(|| {
            let mut m = DynamicMessage::new(t.clone());
            Gen::set(&mut m, f, v.clone());
            prost::Message::encode_to_vec(&m)
        })
        .unwrap_or_default()
    };
    for x in &va {
        for y in &vb {
            c.new_msg(0, t);
            c.set_with(0, &fa, "desc", a.number() as i64, String::new(), x.clone(), false);
            c.copy(0, 1);
            c.set_with(0, &fb, "desc", b.number() as i64, String::new(), y.clone(), true);
            c.op_list(0);
            c.get_with(0, &fa, "desc", a.number() as i64, String::new());
            c.copy(1, 2);
            c.merge(1, &bytes(&fb, y));
            let both = [bytes(&fa, x), bytes(&fb, y)].concat();
            c.dec(1, t, &both, false);
            c.clear_with(2, &fb, "desc", b.number() as i64, String::new(), false);
            let other = DynamicMessage::decode(t.clone(), bytes(&fb, y).as_slice()).ok().map(|m| m.to_text_format());
            if let Some(s) = other {
                c.mergetext(2, &s);
            }
        }
    }
}
