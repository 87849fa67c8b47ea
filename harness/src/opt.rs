//! Histories of pools whose files carry options: interpreted, uninterpreted and unknown ones.
use crate::{gen::*, js::J, msg::guard, obj, pool::*, proto, rng::Rng, schema::*, text::*, val::*, wire::*};
use prost::Message;
use prost_reflect::*;

const KINDS: &[&str] = &["FileOptions", "MessageOptions", "FieldOptions", "OneofOptions", "EnumOptions", "EnumValueOptions", "ServiceOptions", "MethodOptions", "ExtensionRangeOptions"];
const SHORT: &[&str] = &["file", "msg", "field", "oneof", "enum", "value", "svc", "method", "range"];
const SCALARS: &[&str] = &["int32", "sint32", "sfixed32", "uint32", "fixed32", "int64", "sint64", "sfixed64", "uint64", "fixed64", "bool", "float", "double", "string", "bytes", "op.Color"];
pub const DESC: &str = "google/protobuf/descriptor.proto";

pub fn full_descriptor() -> File {
    let mut f = proto::parse(DESC, include_str!("descriptor.proto"));
    f.syntax = Some("proto2".into());
    f
}
/// only what options need, with few of the known options
fn mini_descriptor(r: &mut Rng) -> File {
    let full = full_descriptor();
    let mut f = File { name: full.name.clone(), package: full.package.clone(), syntax: full.syntax.clone(), ..Default::default() };
    for m in &full.msgs {
        let n = m.name.as_deref().unwrap();
        if n == "UninterpretedOption" {
            f.msgs.push(m.clone());
        } else if KINDS.contains(&n) {
            let mut m = m.clone();
            m.fields.retain(|f| matches!(f.name.as_deref(), Some("packed" | "map_entry" | "allow_alias" | "uninterpreted_option")) || (f.ty != 0 && r.pct(40)));
            if r.pct(80) {
                m.enums.clear();
            }
            f.msgs.push(m);
        }
    }
    r.shuffle(&mut f.msgs);
    f
}

fn options_file(r: &mut Rng) -> File {
    let mut s = String::from(
        r#"syntax = "proto2"; package op; import "google/protobuf/descriptor.proto";
enum Color { RED = 0; BLUE = 5; NEG = -3; }
message Leaf { optional int32 n = 1; optional string s = 2; repeated sint32 r = 3; }
message OM {
  optional int32 a = 1; optional uint64 b = 2; optional sint64 c = 3; optional float d = 4; optional double e = 5; optional bool f = 6;
  optional string g = 7; optional bytes h = 8; repeated fixed32 i = 9 [packed = true]; repeated string j = 10;
  optional Leaf leaf = 20; repeated Leaf leaves = 21; map<string, int32> m = 22; map<int32, Leaf> ml = 23;
  oneof o { bool ob = 24; string os = 25; Leaf ol = 26; }
  optional group Grp = 27 { optional int32 x = 1; optional OM back = 2; }
  optional Color col = 28; repeated Color cols = 29 [packed = true]; optional OM rec = 30; optional int32 dflt = 31 [default = 7];
  extensions 100 to 200;
}
message Scope {
  extend .google.protobuf.FieldOptions { optional int32 nested_f = 50010; }
  extend OM { optional int32 in_scope = 103; }
  message Deep { extend .google.protobuf.MessageOptions { optional bytes deep_m = 50011; repeated OM deep_r = 50012; } }
}
extend OM { optional string om_ext = 100; repeated Leaf om_leaf = 101; optional OM om_rec = 102; }
"#,
    );
    for (k, n) in KINDS.iter().zip(SHORT) {
        let mut sc = || r.pick(SCALARS).to_string();
        s += &format!("extend .google.protobuf.{k} {{ optional {} {n}_i = 50001; optional OM {n}_m = 50002; repeated {} {n}_r = 50003; optional Color {n}_e = 50004; repeated OM {n}_rm = 50005; optional {} {n}_d = 50006; optional group {}_G = 50007 {{ optional int32 y = 1; }} }}\n", sc(), sc(), sc(), upper(n));
    }
    let mut f = proto::parse("op.proto", &s);
    f.syntax = Some("proto2".into());
    f
}
fn upper(s: &str) -> String {
    s[..1].to_uppercase() + &s[1..]
}
/// defines extensions whose numbers are already in use
fn late_file(r: &mut Rng) -> File {
    let mut s = String::from("syntax = \"proto2\"; package late; import \"google/protobuf/descriptor.proto\"; import \"op.proto\";\n");
    for (k, n) in KINDS.iter().zip(SHORT) {
        let t = *r.pick(&["int32", "string", "op.OM", "repeated string", "repeated op.Leaf", "op.Color"]);
        let t = if t.starts_with("repeated") { t.to_string() } else { format!("optional {t}") };
        s += &format!("extend .google.protobuf.{k} {{ {t} {n}_late = 50100; }}\n");
    }
    s += "extend op.OM { optional string om_late = 150; }";
    let mut f = proto::parse("late.proto", &s);
    f.syntax = Some("proto2".into());
    f
}

/// Generates the options of one file
struct OGen<'a> {
    g: Gen,
    /// types for generating: without and with the late file
    refs: &'a [DescriptorPool],
    /// the types the pool itself has
    types: &'a DescriptorPool,
    used: Vec<Vec<u32>>,
    own: bool,
    fws: Vec<String>,
    fw: Vec<J>,
    nw: Vec<J>,
    wrong: u64,
    /// where source form options are: path of the options message, count
    spots: Vec<(Vec<i32>, usize)>,
    any: bool,
}

impl OGen<'_> {
    fn float_witness(&mut self, k: i64, raw: [u8; 8], d: f64) {
        let f = d as f32;
        self.nw.push(obj! {"k": J::Int(k), "b": J::b(&raw), "d": J::b(&d.to_bits().to_le_bytes()), "f": J::b(&f.to_bits().to_le_bytes())});
    }
    fn skip(name: &str) -> bool {
        matches!(name, "packed" | "map_entry" | "allow_alias" | "uninterpreted_option")
    }
    /// options that need no interpretation
    fn base(&mut self, kind: &str, out: &mut Vec<u8>) {
        let late = self.own && self.g.r.pct(35);
        let pool = &self.refs[late as usize];
        let desc = pool.get_message_by_name(&format!("google.protobuf.{kind}")).unwrap();
        self.g.unknown = 0;
        self.g.ext = if self.own || self.g.r.pct(40) { 55 } else { 0 };
        let mut m = self.g.msg(&desc, 2);
        for f in desc.fields() {
            if Self::skip(f.name()) {
                m.clear_field(&f);
            }
        }
        if late && self.g.r.pct(70) {
            if let Some(x) = desc.get_extension(50100) {
                let v = self.g.value(&Fd::X(x.clone()), 1);
                m.set_extension(&x, v);
            }
        }
        out.extend(m.encode_to_vec());
        if self.g.r.pct(20) {
            let n = *self.g.r.pick(&[77u32, 78, 2047, 2048, 18999, 536870911, 1001, 50200]);
            self.g.raw_field(n, 2, out);
        }
    }
    /// one option in source form
    fn source(&mut self, kind: &str, scope: &str, old: &DynamicMessage) -> Vec<u8> {
        let mut desc = self.types.get_message_by_name(&format!("google.protobuf.{kind}")).unwrap();
        let mut u = vec![];
        let mut parts = vec![];
        let mut f;
        let (mut trail, mut set) = (vec![], false);
        let mut depth = 0;
        loop {
            let xs: Vec<ExtensionDescriptor> = desc.extensions().collect();
            let ps: Vec<FieldDescriptor> = desc.fields().filter(|f| !Self::skip(f.name())).collect();
            let want_ext = if depth == 0 { self.own && self.g.r.pct(85) } else { self.g.r.pct(25) };
            f = if !xs.is_empty() && (want_ext || ps.is_empty()) {
                Fd::X(self.g.r.pick(&xs).clone())
            } else if ps.is_empty() {
                return vec![];
            } else {
                Fd::F(self.g.r.pick(&ps).clone())
            };
            trail.push(f.number());
            if depth == 0 && !f.is_list() && !f.is_map() {
                set = match &f {
                    Fd::F(f) => old.has_field_by_number(f.number()),
                    Fd::X(f) => old.descriptor().get_extension(f.number()).is_some_and(|x| old.has_extension(&x)),
                };
            }
            let bad = self.g.r.pct(self.wrong);
            parts.push(match &f {
                Fd::F(f) => (if bad { format!("{}_", f.name()) } else { f.name().to_string() }, bad && self.g.r.pct(10)),
                Fd::X(x) => {
                    let full = x.full_name();
                    let n = if bad {
                        self.g.r.pick(&["op.file_i", "nope", "op.OM", "op", ".op.Scope.nested_f", "field_i", "op.OM.a"]).to_string()
                    } else {
                        // relative, from what encloses the option
                        let common = full.split('.').zip(scope.split('.')).take_while(|(a, b)| a == b).count().min(full.split('.').count() - 1);
                        let drop = self.g.r.below(common + 1);
                        match self.g.r.below(3) {
                            0 => format!(".{full}"),
                            _ => full.split('.').skip(drop).collect::<Vec<_>>().join("."),
                        }
                    };
                    (n, true)
                }
            });
            depth += 1;
            if let Kind::Message(m) = f.kind() {
                let into = if f.is_list() || f.is_map() { 2 } else { 60 };
                if depth < 4 && self.g.r.pct(into) {
                    desc = m;
                    continue;
                }
            }
            break;
        }
        let clash = !f.is_list() && !f.is_map() && (set && parts.len() == 1 || self.used.iter().any(|t| t.starts_with(&trail) || trail.starts_with(t)));
        if clash && self.g.r.pct(95) {
            return vec![];
        }
        self.used.push(trail);
        for (n, x) in &parts {
            let mut p = vec![];
            put_str(1, n, &mut p);
            put_int(2, *x as i64, &mut p);
            put_bytes(2, &p, &mut u);
        }
        self.value(&f, &mut u);
        u
    }
    fn value(&mut self, f: &Fd, u: &mut Vec<u8>) {
        let k = if self.g.r.pct(self.wrong) { self.g.r.pick(&[Kind::Int32, Kind::Bool, Kind::String, Kind::Double]).clone() } else { f.kind() };
        let off = self.g.r.pct(self.wrong);
        match k {
            Kind::Message(m) => {
                let wrong = if off { 20 } else { 0 };
                let d = 1 + self.g.r.below(2) as u32;
                let mut x = Txt { g: &mut self.g, wrong, out: vec![] };
                x.body(&m, d);
                let t = x.print(false);
                read_into(&t, &mut self.fws, &mut self.fw);
                put_str(8, &t, u);
            }
            Kind::Enum(e) => {
                let vs: Vec<String> = e.values().map(|v| v.name().to_string()).collect();
                let n = if off { "NOPE".to_string() } else { self.g.r.pick(&vs).clone() };
                put_str(3, &n, u);
            }
            Kind::Bool => put_str(3, if off { "maybe" } else { *self.g.r.pick(&["true", "false"]) }, u),
            Kind::String => {
                if off {
                    put_bytes(7, &[0xff, b'x'], u)
                } else {
                    let s = self.g.string();
                    put_str(7, &s, u)
                }
            }
            Kind::Bytes => {
                let b = self.g.bytes();
                put_bytes(7, &b, u)
            }
            Kind::Float | Kind::Double => match self.g.r.below(4) {
                0 => {
                    let v = *self.g.r.pick(&[0u64, 1, 3, 16777217, 1 << 40, (1 << 53) - 1, 33554435]);
                    put_int(4, v as i64, u);
                    self.float_witness(4, v.to_le_bytes(), v as f64);
                }
                1 => {
                    let v = *self.g.r.pick(&[-1i64, -3, -16777217, -(1 << 40)]);
                    put_int(5, v, u);
                    self.float_witness(5, v.to_le_bytes(), v as f64);
                }
                _ => {
                    let v = self.g.f64();
                    key(6, 1, u);
                    u.extend(v.to_bits().to_le_bytes());
                    self.float_witness(6, v.to_bits().to_le_bytes(), v);
                }
            },
            k => {
                let (lo, hi): (i128, i128) = match k {
                    Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => (i32::MIN as i128, i32::MAX as i128),
                    Kind::Uint32 | Kind::Fixed32 => (0, u32::MAX as i128),
                    Kind::Uint64 | Kind::Fixed64 => (0, u64::MAX as i128),
                    _ => (i64::MIN as i128, i64::MAX as i128),
                };
                let v = if off {
                    *self.g.r.pick(&[hi + 1, lo - 1])
                } else {
                    let c = [lo, hi, 0, 1, 2, 127, 128, -1, -2, 300, hi - 1, lo + 1];
                    (*self.g.r.pick(&c)).clamp(lo, hi)
                };
                if v >= 0 {
                    let v = v.min(u64::MAX as i128) as u64;
                    put_int(4, v as i64, u);
                    self.float_witness(4, v.to_le_bytes(), v as f64);
                } else {
                    let v = v.max(i64::MIN as i128) as i64;
                    put_int(5, v, u);
                    self.float_witness(5, v.to_le_bytes(), v as f64);
                }
            }
        }
    }
    /// the options of one definition; `had`: one already stands there in source form
    fn opts(&mut self, kind: &str, scope: &str, path: &[i32], n: i32, had: usize) -> Vec<u8> {
        let mut o = vec![];
        if !self.any && !self.g.r.pct(30) {
            return o;
        }
        let mut p = path.to_vec();
        p.push(n);
        let base = self.g.r.pct(60);
        if base && self.g.r.pct(50) {
            self.base(kind, &mut o);
        }
        let k = *self.g.r.pick(&[0usize, 0, 0, 1, 1, 2, 3]);
        let mut c = had;
        let desc = self.refs[0].get_message_by_name(&format!("google.protobuf.{kind}")).unwrap();
        let old = DynamicMessage::decode(desc, o.as_slice()).unwrap();
        self.used.clear();
        for _ in 0..k {
            let u = self.source(kind, scope, &old);
            if !u.is_empty() {
                put_bytes(999, &u, &mut o);
                c += 1;
            }
        }
        if base && o.is_empty() {
            self.base(kind, &mut o);
        }
        if c > 0 {
            self.spots.push((p, c));
        }
        o
    }
    fn field(&mut self, f: &mut Field, scope: &str, path: &[i32]) {
        f.split = self.g.r.pct(12);
        f.packed_src = self.g.r.pct(30);
        let full = dot(scope, f.name.as_deref().unwrap());
        f.opts = self.opts("FieldOptions", &full, path, 8, (f.packed.is_some() && f.packed_src) as usize);
    }
    fn enum_(&mut self, e: &mut Enum, scope: &str, path: &[i32]) {
        e.split = self.g.r.pct(12);
        e.alias_src = self.g.r.pct(40);
        let full = dot(scope, e.name.as_deref().unwrap());
        e.opts = self.opts("EnumOptions", &full, path, 3, (e.alias && e.alias_src) as usize);
        e.val_opts = (0..e.vals.len())
            .map(|i| {
                let v = dot(scope, e.vals[i].0.as_deref().unwrap());
                self.opts("EnumValueOptions", &v, &join(path, &[2, i as i32]), 3, 0)
            })
            .collect();
    }
    fn msg(&mut self, m: &mut Msg, scope: &str, path: &[i32]) {
        let full = dot(scope, m.name.as_deref().unwrap());
        m.split = self.g.r.pct(12);
        m.entry_src = self.g.r.pct(15);
        m.opts = self.opts("MessageOptions", &full, path, 7, (m.map_entry && m.entry_src) as usize);
        for (i, f) in m.fields.iter_mut().enumerate() {
            self.field(f, &full, &join(path, &[2, i as i32]));
        }
        for (i, x) in m.msgs.iter_mut().enumerate() {
            self.msg(x, &full, &join(path, &[3, i as i32]));
        }
        for (i, x) in m.enums.iter_mut().enumerate() {
            self.enum_(x, &full, &join(path, &[4, i as i32]));
        }
        m.range_opts = (0..m.ext_ranges.len()).map(|i| self.opts("ExtensionRangeOptions", &full, &join(path, &[5, i as i32]), 3, 0)).collect();
        for (i, f) in m.exts.iter_mut().enumerate() {
            self.field(f, &full, &join(path, &[6, i as i32]));
        }
        m.oneof_opts = (0..m.oneofs.len())
            .map(|i| {
                let o = dot(&full, m.oneofs[i].as_deref().unwrap());
                self.opts("OneofOptions", &o, &join(path, &[8, i as i32]), 2, 0)
            })
            .collect();
    }
    fn file(&mut self, f: &mut File) {
        let p = f.package.clone().unwrap_or_default();
        f.split = self.g.r.pct(12);
        f.opts = self.opts("FileOptions", &p, &[], 8, 0);
        for (i, x) in f.msgs.iter_mut().enumerate() {
            self.msg(x, &p, &[4, i as i32]);
        }
        for (i, x) in f.enums.iter_mut().enumerate() {
            self.enum_(x, &p, &[5, i as i32]);
        }
        for (i, s) in f.svcs.iter_mut().enumerate() {
            let full = dot(&p, s.name.as_deref().unwrap());
            s.split = self.g.r.pct(12);
            s.opts = self.opts("ServiceOptions", &full, &[6, i as i32], 3, 0);
            for (j, m) in s.methods.iter_mut().enumerate() {
                let mn = dot(&full, m.name.as_deref().unwrap());
                m.split = self.g.r.pct(12);
                m.opts = self.opts("MethodOptions", &mn, &[6, i as i32, 2, j as i32], 4, 0);
            }
        }
        for (i, x) in f.exts.iter_mut().enumerate() {
            self.field(x, &p, &[7, i as i32]);
        }
        let spots = std::mem::take(&mut self.spots);
        if !spots.is_empty() && self.g.r.pct(60) || self.g.r.pct(20) {
            for _ in 0..1 + self.g.r.below(6) {
                let path = if !spots.is_empty() && self.g.r.pct(75) {
                    let (p, c) = self.g.r.pick(&spots).clone();
                    let mut p = join(&p, &[999, self.g.r.below(c) as i32]);
                    if self.g.r.pct(40) {
                        p.push(*self.g.r.pick(&[2, 3, 8]));
                    }
                    p
                } else if !spots.is_empty() && self.g.r.pct(50) {
                    self.g.r.pick(&spots).0.clone()
                } else {
                    self.g.r.pick(&[vec![], vec![4, 0], vec![4, 0, 2, 0], vec![12], vec![8], vec![4, 0, 2, 300]]).clone()
                };
                let mut l = vec![];
                let mut v = vec![];
                for x in &path {
                    varint(*x as u64, &mut v);
                }
                if !v.is_empty() || self.g.r.pct(50) {
                    put_bytes(1, &v, &mut l);
                }
                let mut v = vec![];
                for _ in 0..3 + self.g.r.below(2) {
                    varint(self.g.r.below(300) as u64, &mut v);
                }
                put_bytes(2, &v, &mut l);
                if self.g.r.pct(30) {
                    put_str(3, " a comment\n", &mut l);
                }
                if self.g.r.pct(20) {
                    put_str(4, "after", &mut l);
                }
                put_bytes(1, &l, &mut f.src_info);
            }
        }
    }
}
fn dot(scope: &str, n: &str) -> String {
    if scope.is_empty() {
        n.to_string()
    } else {
        format!("{scope}.{n}")
    }
}
fn join(a: &[i32], b: &[i32]) -> Vec<i32> {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    v
}

/// The options of every definition of a pool as the library reports them (`keep` of those without any).
fn opts_dump(p: &DescriptorPool, r: &mut Rng) -> J {
    let mut os: Vec<J> = vec![];
    let mut keep = |f: &FileDescriptor, path: &[i32], n: i32, k: &str, has: bool, opts: &dyn Fn() -> DynamicMessage| {
        let lone = if f.name() == DESC { 2 } else { 20 };
        if has || r.pct(lone) {
            os.push(obj! {"f": J::s(f.name()), "p": J::Arr(path.iter().map(|x| J::Int(*x as i64)).collect()), "n": J::Int(n as i64), "k": J::s(k), "d": dump_msg(&opts(), true)});
        }
    };
    for f in p.files() {
        keep(&f, &[], 8, "FileOptions", f.file_descriptor_proto().options.is_some(), &|| f.options());
    }
    for m in p.all_messages() {
        let f = m.parent_file();
        keep(&f, m.path(), 7, "MessageOptions", m.descriptor_proto().options.is_some(), &|| m.options());
        for x in m.fields() {
            keep(&f, x.path(), 8, "FieldOptions", x.field_descriptor_proto().options.is_some(), &|| x.options());
        }
        for x in m.oneofs() {
            keep(&f, x.path(), 2, "OneofOptions", x.oneof_descriptor_proto().options.is_some(), &|| x.options());
        }
    }
    for m in p.all_enums() {
        let f = m.parent_file();
        keep(&f, m.path(), 3, "EnumOptions", m.enum_descriptor_proto().options.is_some(), &|| m.options());
        for x in m.values() {
            keep(&f, x.path(), 3, "EnumValueOptions", x.enum_value_descriptor_proto().options.is_some(), &|| x.options());
        }
    }
    for s in p.services() {
        let f = s.parent_file();
        keep(&f, s.path(), 3, "ServiceOptions", s.service_descriptor_proto().options.is_some(), &|| s.options());
        for x in s.methods() {
            keep(&f, x.path(), 4, "MethodOptions", x.method_descriptor_proto().options.is_some(), &|| x.options());
        }
    }
    for x in p.all_extensions() {
        keep(&x.parent_file(), x.path(), 8, "FieldOptions", x.field_descriptor_proto().options.is_some(), &|| x.options());
    }
    obj! {"t": J::s("ok"), "os": J::Arr(os)}
}
/// reads every option there is
pub fn touch_options(p: &DescriptorPool) -> usize {
    let mut n = 0;
    let mut see = |o: DynamicMessage| n += format!("{o:?}").len() + o.encoded_len();
    for f in p.files() {
        see(f.options());
    }
    for m in p.all_messages() {
        see(m.options());
        m.fields().for_each(|x| see(x.options()));
        m.oneofs().for_each(|x| see(x.options()));
    }
    for m in p.all_enums() {
        see(m.options());
        m.values().for_each(|x| see(x.options()));
    }
    for s in p.services() {
        see(s.options());
        s.methods().for_each(|x| see(x.options()));
    }
    for x in p.all_extensions() {
        see(x.options());
    }
    n
}
fn enc_dump(p: &DescriptorPool) -> J {
    let mut all = vec![];
    let mut fs = vec![];
    for f in p.files() {
        let b = f.encode_to_vec();
        put_bytes(1, &b, &mut all);
        let pv = f.file_descriptor_proto().encode_to_vec();
        fs.push(obj! {"f": J::s(f.name()), "b": J::b(&b), "pv": J::b(&pv)});
    }
    let mut buf = vec![];
    let by_encode = p.encode(&mut buf).is_ok() && buf == all;
    obj! {"t": J::s("ok"), "cat": J::Bool(p.encode_to_vec() == all && by_encode), "fs": J::Arr(fs)}
}

impl Hist {
    fn opts(&mut self, p: usize) {
        let pool = self.pools[p].clone();
        let mut r = Rng(self.r.next());
        let d = guard(|| opts_dump(&pool, &mut r)).unwrap_or(obj! {"t": J::s("panic")});
        self.ev.push(obj! {"o": J::s("opts"), "p": J::Int(p as i64), "d": d});
    }
    fn enc(&mut self, p: usize) {
        let pool = &self.pools[p];
        let d = guard(|| enc_dump(pool)).unwrap_or(obj! {"t": J::s("panic")});
        self.ev.push(obj! {"o": J::s("enc"), "p": J::Int(p as i64), "d": d});
    }
    /// a pool made from what another one encodes to
    fn again(&mut self, p: usize, from: usize) {
        let src = self.pools[from].clone();
        let r = guard(|| DescriptorPool::decode(src.encode_to_vec().as_slice()));
        let q = match r {
            Some(Ok(x)) => {
                self.pools[p] = x;
                "ok"
            }
            Some(Err(_)) => "err",
            None => "panic",
        };
        self.ev.push(obj! {"o": J::s("again"), "p": J::Int(p as i64), "from": J::Int(from as i64), "q": J::s(q)});
    }
    fn look(&mut self, p: usize) {
        match self.r.below(4) {
            0 => {
                self.opts(p);
                self.enc(p)
            }
            1 => self.enc(p),
            _ => self.opts(p),
        }
    }
}

pub fn run(h: &mut Hist, n: usize) -> (J, J) {
    let mut r = Rng(h.r.next());
    let own = !r.pct(20);
    let full = full_descriptor();
    let op = options_file(&mut r);
    let late = late_file(&mut r);
    let with = |fs: &[&File]| -> DescriptorPool {
        let v: Vec<File> = fs.iter().map(|f| (*f).clone()).collect();
        let mut p = DescriptorPool::new();
        for f in v {
            p.decode_file_descriptor_proto(f.bytes().as_slice()).expect("generator's own files");
        }
        p
    };
    let refs = [with(&[&full, &op]), with(&[&full, &op, &late])];
    let mut g = SGen::new(Rng(r.next()));
    if r.pct(35) {
        g.pkg = Some(*r.pick(&["op", "op.sub", "op.Scopes", "late"]));
    }
    let nf = 1 + r.below(2);
    g.safe = r.pct(70);
    let mut users = g.schema(nf);
    let desc = if r.pct(if n % 4 == 0 { 40 } else { 5 }) { full.clone() } else { mini_descriptor(&mut r) };
    for f in &mut users {
        if own && !r.pct(4) {
            f.deps.push("op.proto".into());
        }
    }
    let types = if own { with(&[&desc, &op]) } else { with(&[&full]) };
    let mut gen = Gen::new(Rng(r.next()));
    gen.depth = 2;
    gen.wkt_valid = 0;
    let mut o = OGen { g: gen, refs: &refs, types: &types, used: vec![], own, fws: vec![], fw: vec![], nw: vec![], wrong: 0, spots: vec![], any: false };
    let good: Vec<File> = users
        .iter()
        .map(|f| {
            let mut f = f.clone();
            o.file(&mut f);
            f
        })
        .collect();
    // the same files with options of which some are wrong
    let bad: Vec<File> = users
        .iter()
        .map(|f| {
            let mut f = f.clone();
            o.wrong = 7;
            o.file(&mut f);
            f
        })
        .collect();
    let (fw, nw) = (J::Arr(std::mem::take(&mut o.fw)), J::Arr(std::mem::take(&mut o.nw)));
    // indices: 0.. good, nf.. bad, then descriptor.proto, op.proto, late.proto
    let (d, p, l) = (2 * nf, 2 * nf + 1, 2 * nf + 2);
    h.files = good.into_iter().chain(bad).chain([desc, op, late]).collect();
    h.probes = Probes::new(&h.files);
    let how = h.how();
    if own {
        if h.r.pct(30) {
            // everything at once
            let mut all: Vec<usize> = [d, p].into_iter().chain(0..nf).collect();
            if h.r.pct(10) {
                h.r.shuffle(&mut all);
            }
            h.add(0, &all, how);
            h.look(0);
        } else {
            h.add(0, &[d, p], how);
        }
    }
    for b in 0..nf {
        if h.r.pct(60) {
            h.clone_pool(1, 0);
            let how = h.how();
            if h.add(1, &[nf + b], how) {
                h.look(1);
            }
        }
        let how = h.how();
        h.add(0, &[b], how);
    }
    h.look(0);
    h.opts(0);
    if h.r.pct(50) {
        h.dump(0);
    }
    if h.r.pct(60) {
        h.again(2, 0);
        h.look(2);
        if h.r.pct(40) {
            h.dump(2);
        }
    }
    if own && h.r.pct(60) {
        let how = h.how();
        let q = *h.r.pick(&[0, 0, 2]);
        h.add(q, &[l], how);
        h.look(q);
        h.opts(q);
        if h.r.pct(40) {
            h.again(1, q);
            h.look(1);
        }
    }
    (fw, nw)
}
