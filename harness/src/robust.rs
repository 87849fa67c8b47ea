//! Hostile descriptor sets: arbitrary edits of encoded files are added to pools, and whatever is
//! accepted is inspected, printed, encoded and used for decoding messages.
use crate::{gen::*, js::J, json, msg::*, obj, opt, pool::*, rng::Rng, schema::*, text, val::*, wire::*};
use prost::Message;
use prost_reflect::*;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use std::collections::HashMap;

/// field number -> message type ("" for strings and bytes) per message of descriptor.proto
type Shapes = HashMap<String, HashMap<u32, String>>;
fn shapes() -> Shapes {
    let f = opt::full_descriptor();
    let mut out = HashMap::new();
    fn go(m: &Msg, out: &mut Shapes) {
        let e = m.fields.iter().filter(|f| matches!(f.ty, 0 | 9 | 11 | 12)).map(|f| (f.num.unwrap() as u32, f.tname.as_deref().map_or(String::new(), |t| t.rsplit('.').next().unwrap().to_string()))).collect();
        out.insert(m.name.clone().unwrap(), e);
        for x in &m.msgs {
            go(x, out);
        }
    }
    for m in &f.msgs {
        go(m, &mut out);
    }
    out
}

#[derive(Clone, Debug)]
enum Node {
    Int(u32, u64),
    Str(u32, Vec<u8>),
    Sub(u32, String, Vec<Node>),
    Raw(Vec<u8>),
}

fn read_varint(b: &[u8], i: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for s in 0..10 {
        let x = *b.get(*i)?;
        *i += 1;
        v |= ((x & 0x7f) as u64) << (7 * s).min(63);
        if x < 0x80 {
            return Some(v);
        }
    }
    None
}
fn read(b: &[u8], ty: &str, sh: &Shapes) -> Vec<Node> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let at = i;
        let rest = |at: usize| Node::Raw(b[at..].to_vec());
        let Some(k) = read_varint(b, &mut i) else { out.push(rest(at)); break };
        let n = (k >> 3) as u32;
        match k & 7 {
            0 => match read_varint(b, &mut i) {
                Some(v) => out.push(Node::Int(n, v)),
                None => {
                    out.push(rest(at));
                    break;
                }
            },
            2 => {
                let Some(l) = read_varint(b, &mut i) else { out.push(rest(at)); break };
                let l = l as usize;
                if l > b.len() - i {
                    out.push(rest(at));
                    break;
                }
                let c = &b[i..i + l];
                i += l;
                match sh.get(ty).and_then(|m| m.get(&n)) {
                    Some(t) if sh.contains_key(t) => out.push(Node::Sub(n, t.clone(), read(c, t, sh))),
                    _ => out.push(Node::Str(n, c.to_vec())),
                }
            }
            _ => {
                out.push(rest(at));
                break;
            }
        }
    }
    out
}
fn write(ns: &[Node], out: &mut Vec<u8>) {
    for n in ns {
        match n {
            Node::Int(k, v) => {
                key(*k, 0, out);
                varint(*v, out)
            }
            Node::Str(k, v) => put_bytes(*k, v, out),
            Node::Sub(k, _, c) => {
                let mut b = vec![];
                write(c, &mut b);
                put_bytes(*k, &b, out)
            }
            Node::Raw(b) => out.extend(b),
        }
    }
}
/// all lists of nodes, by path
fn lists(ns: &[Node], ty: &str, at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, String)>) {
    out.push((at.clone(), ty.to_string()));
    for (i, n) in ns.iter().enumerate() {
        if let Node::Sub(_, t, c) = n {
            at.push(i);
            lists(c, t, at, out);
            at.pop();
        }
    }
}
fn list_at<'a>(ns: &'a mut Vec<Node>, at: &[usize]) -> &'a mut Vec<Node> {
    match at.split_first() {
        None => ns,
        Some((i, rest)) => match &mut ns[*i] {
            Node::Sub(_, _, c) => list_at(c, rest),
            _ => unreachable!(),
        },
    }
}
fn strings(ns: &[Node], out: &mut Vec<Vec<u8>>) {
    for n in ns {
        match n {
            Node::Str(_, s) => out.push(s.clone()),
            Node::Sub(_, _, c) => strings(c, out),
            _ => {}
        }
    }
}

const INTS: &[u64] = &[
    0, 1, 2, 3, 4, 8, 9, 10, 11, 14, 16, 17, 18, 19, 100, 18999, 19000, 19999, 20000, 536870911, 536870912, 0x7fffffff, 0x80000000, 0xffffffff, 0xffff_ffff_8000_0000, u64::MAX, 1 << 32, 0x1_0000_0001, 1 << 63, 200, 1000,
];
const NAMES: &[&str] = &[
    "", ".", "..", ".a", "a.", "a..b", "a.b.c", "_", "__", "_1", "1", "A", "a", "é", "ß_x", "a_é", "_é", "İ", "a_ß", "\u{10ffff}", " ", "a b", "[a]", "a/b", "\u{0}", "proto2", "proto3", "editions", "google.protobuf", "google.protobuf.Any",
    "google.protobuf.Timestamp", ".google.protobuf.Value", "key", "value", "\\", "\\x", "\\xZ", "\\777", "\\8", "\\u12", "\\U00110000", "\\ud800", "\"", "nan", "-nan", "inf", "-inf", "1e400", "-0", "0x", "0x1F", "9223372036854775808", "-9223372036854775809", "1.", "true", "TRUE", "-",
    "a_", "a__b", "aB", "FooEntry", "foo_entry", "google.protobuf.FieldOptions",
];

pub struct Mutator<'a> {
    pub r: &'a mut Rng,
    sh: &'a Shapes,
    names: Vec<Vec<u8>>,
}
impl Mutator<'_> {
    fn string(&mut self) -> Vec<u8> {
        let mut s = if !self.names.is_empty() && self.r.pct(55) { self.r.pick(&self.names).clone() } else { self.r.pick(NAMES).as_bytes().to_vec() };
        if self.r.pct(12) {
            s.insert(0, b'.')
        }
        if self.r.pct(6) {
            s.extend(b".X")
        }
        if self.r.pct(2) {
            s.push(0xff)
        }
        s
    }
    fn int(&mut self) -> u64 {
        match self.r.below(4) {
            0 => self.r.below(20) as u64,
            1 => (self.r.range(-3, 3)) as u64,
            _ => *self.r.pick(INTS),
        }
    }
    /// a new record for a message of this type
    fn fresh(&mut self, ty: &str) -> Node {
        let m = self.sh.get(ty);
        let n = match m {
            Some(m) if !m.is_empty() && self.r.pct(75) => {
                let mut ks: Vec<u32> = m.keys().copied().collect();
                ks.sort();
                *self.r.pick(&ks)
            }
            _ => *self.r.pick(&[1u32, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 34, 999, 1000, 50000]),
        };
        match m.and_then(|m| m.get(&n)) {
            Some(t) if self.sh.contains_key(t) => {
                let t = t.clone();
                let k = self.r.below(4);
                let c = (0..k).map(|_| self.fresh(&t)).collect();
                Node::Sub(n, t, c)
            }
            Some(_) => Node::Str(n, self.string()),
            None if self.r.pct(85) => Node::Int(n, self.int()),
            None => Node::Str(n, self.string()),
        }
    }
    pub fn edit(&mut self, ns: &mut Vec<Node>) {
        let mut ls = vec![];
        lists(ns, "FileDescriptorProto", &mut vec![], &mut ls);
        let (at, ty) = self.r.pick(&ls).clone();
        let (at2, _) = self.r.pick(&ls).clone();
        let donor = {
            let l = list_at(ns, &at2).clone();
            if l.is_empty() { None } else { Some(self.r.pick(&l).clone()) }
        };
        let l = list_at(ns, &at);
        if l.is_empty() {
            let x = self.fresh(&ty);
            l.push(x);
            return;
        }
        let i = self.r.below(l.len());
        match self.r.below(16) {
            0 | 1 => {
                l.remove(i);
            }
            2 => {
                let x = l[i].clone();
                l.push(x)
            }
            3 => {
                let j = self.r.below(l.len());
                l.swap(i, j)
            }
            4 => {
                if let Some(d) = donor {
                    l.push(d)
                }
            }
            5 | 6 => {
                let x = self.fresh(&ty);
                l.push(x)
            }
            7 => {
                // a record under another number
                let n = *self.r.pick(&[1u32, 2, 3, 4, 5, 6, 7, 8, 9, 10]);
                match &mut l[i] {
                    Node::Int(k, _) | Node::Str(k, _) | Node::Sub(k, _, _) => *k = n,
                    _ => {}
                }
            }
            8 if self.r.pct(20) => {
                let mut b = vec![];
                write(&l[i..=i], &mut b);
                let j = self.r.below(b.len());
                b[j] ^= 1 << self.r.below(8);
                l[i] = Node::Raw(b)
            }
            _ => {
                // another value
                let (s, v) = (self.string(), self.int());
                match &mut l[i] {
                    Node::Int(_, x) => *x = v,
                    Node::Str(_, x) => *x = s,
                    Node::Sub(_, t, c) => {
                        let t = t.clone();
                        if self.r.pct(30) {
                            c.clear()
                        } else {
                            let x = self.fresh(&t);
                            c.push(x)
                        }
                    }
                    Node::Raw(_) => {}
                }
            }
        }
    }
}

pub struct Rob {
    pub r: Rng,
    pub ev: Vec<J>,
    pools: Vec<DescriptorPool>,
    facts: Vec<String>,
    /// messages of the pool at hand have two extensions with one number
    dup: bool,
}
pub const NREGS: usize = 3;

impl Rob {
    pub fn new(r: Rng) -> Rob {
        let mut h = Rob { r, ev: vec![], pools: vec![DescriptorPool::new(); NREGS], facts: vec![String::new(); NREGS], dup: false };
        for x in 0..NREGS {
            h.fresh(x);
        }
        h
    }
    fn fresh(&mut self, x: usize) {
        self.pools[x] = DescriptorPool::new();
        let d = self.digest(&DescriptorPool::new());
        self.ev.push(obj! {"o": J::s("new"), "x": J::Int(x as i64), "f": J::s(&d)});
        self.facts[x] = d;
    }
    fn attempt<T, E: std::fmt::Display + std::fmt::Debug>(&mut self, x: usize, k: &str, r: Option<Result<T, E>>) -> Option<T> {
        let (q, v) = match r {
            None => ("panic", None),
            Some(Ok(v)) => ("ok", Some(v)),
            Some(Err(e)) => {
                // errors are printed
                if guard(|| format!("{e} {e:?} {e:#?}")).is_none() {
                    ("panic", None)
                } else {
                    if std::env::var("VH_ERR").is_ok() {
                        eprintln!("{k}: {e}");
                    }
                    ("err", None)
                }
            }
        };
        self.ev.push(obj! {"o": J::s("try"), "x": J::Int(x as i64), "k": J::s(k), "q": J::s(q), "why": J::s(&why(q))});
        v
    }
    fn usage<T>(&mut self, x: usize, k: &str, f: impl FnOnce() -> T) -> Option<T> {
        let r = guard(f);
        let q = if r.is_some() { "ok" } else { "panic" };
        if q == "panic" && std::env::var("VH_DUMP").is_ok() {
            eprintln!("{k}: {}\n{:#?}", why(q), self.pools[x.min(2)].file_descriptor_protos().collect::<Vec<_>>());
        }
        self.ev.push(obj! {"o": J::s("use"), "x": J::Int(x as i64), "k": J::s(k), "q": J::s(q), "why": J::s(&why(q))});
        r
    }
    fn add(&mut self, x: usize, files: &[Vec<u8>]) -> bool {
        let mut set = vec![];
        for f in files {
            put_bytes(1, f, &mut set);
        }
        let how = self.r.below(5);
        let pool = &mut self.pools[x];
        let one = files.len() == 1;
        let r = guard(|| -> Result<(), String> {
            let protos = || -> Result<Vec<FileDescriptorProto>, String> { files.iter().map(|f| FileDescriptorProto::decode(f.as_slice()).map_err(|e| e.to_string())).collect() };
            let e = |e: DescriptorError| format!("{e} {e:?} {e:#?} {:?}", e.file()).replace('\0', "");
            match how {
                0 if one => pool.add_file_descriptor_proto(protos()?.remove(0)).map_err(e),
                1 if one => pool.decode_file_descriptor_proto(files[0].as_slice()).map_err(e),
                2 => pool.add_file_descriptor_protos(protos()?).map_err(e),
                3 => pool.add_file_descriptor_set(FileDescriptorSet { file: protos()? }).map_err(e),
                _ => pool.decode_file_descriptor_set(set.as_slice()).map_err(e),
            }
        });
        if r.is_none() {
            self.pools[x] = DescriptorPool::new();
        }
        let ok = self.attempt(x, "add", r).is_some();
        let now = self.pools[x].clone();
        self.facts[x] = self.digest(&now);
        let f = self.facts[x].clone();
        if let Some(J::Obj(o)) = self.ev.last_mut() {
            o.push(("f".into(), J::s(&f)));
        }
        ok
    }
    /// a name for everything the pool reports
    fn digest(&self, p: &DescriptorPool) -> String {
        let t = guard(|| {
            let mut names: Vec<String> = p.all_messages().flat_map(|m| [vec![m.full_name().to_string()], m.fields().flat_map(|f| [f.name().to_string(), f.json_name().to_string()]).collect()].concat()).collect();
            names.extend(p.all_enums().flat_map(|e| e.values().map(|v| v.name().to_string()).collect::<Vec<_>>()));
            names.extend(p.all_extensions().map(|x| x.full_name().to_string()));
            names.extend(p.all_enums().map(|x| x.full_name().to_string()));
            names.extend(p.services().map(|x| x.full_name().to_string()));
            names.extend(NAMES.iter().map(|s| s.to_string()));
            names.sort();
            names.dedup();
            let pr = Probes { names, numbers: INTS.iter().map(|i| *i as u32).collect(), values: INTS.iter().map(|i| *i as i32).collect() };
            format!("{} {:?}", Handles::of(p, None).dump(&pr, Some(p)).text(), p.encode_to_vec())
        });
        match t {
            None => "panic".into(),
            Some(t) => {
                let mut h = 0xcbf29ce484222325u64;
                for b in t.bytes() {
                    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                }
                format!("{h:016x}")
            }
        }
    }
    /// everything that can be asked of a pool and of messages of its types
    fn walk(&mut self, x: usize, names: &[String]) {
        let pool = self.pools[x].clone();
        let mut names = names.to_vec();
        names.extend(NAMES.iter().map(|s| s.to_string()));
        names.sort();
        names.dedup();
        let pr = Probes { names, numbers: INTS.iter().map(|i| *i as u32).collect(), values: INTS.iter().map(|i| *i as i32).collect() };
        self.usage(x, "facts", || Handles::of(&pool, None).dump(&pr, Some(&pool)));
        self.usage(x, "debug", || format!("{pool:?} {:?} {:?} {:?}", pool.all_messages().collect::<Vec<_>>(), pool.all_extensions().collect::<Vec<_>>(), pool.services().collect::<Vec<_>>()));
        let bytes = self.usage(x, "encode", || {
            for f in pool.files() {
                let b = f.encode_to_vec();
                let _ = (FileDescriptorProto::decode(b.as_slice()).is_ok(), f.file_descriptor_proto().encoded_len());
            }
            pool.encode_to_vec()
        });
        self.usage(x, "options", || opt::touch_options(&pool));
        if let Some(b) = bytes {
            if self.r.pct(30) {
                let r = guard(|| DescriptorPool::decode(b.as_slice()));
                let p = self.attempt(2, "again", r);
                let f = p.map_or(String::new(), |p| self.digest(&p));
                if let Some(J::Obj(o)) = self.ev.last_mut() {
                    o.push(("f".into(), J::s(&f)));
                    o.push(("y".into(), J::Int(x as i64)));
                }
            }
        }
        self.dup = guard(|| {
            pool.all_messages().any(|m| {
                let mut ns: Vec<u32> = m.extensions().map(|x| x.number()).collect();
                let n = ns.len();
                ns.sort();
                ns.dedup();
                n != ns.len()
            })
        }) == Some(true);
        let types: Vec<MessageDescriptor> = guard(|| pool.all_messages().filter(|m| !m.is_map_entry() || self.r.pct(30)).collect()).unwrap_or_default();
        for k in 0..types.len().min(6) {
            let t = if types.len() > 6 { self.r.pick(&types).clone() } else { types[k].clone() };
            self.messages(&pool, &t);
        }
    }
    fn messages(&mut self, pool: &DescriptorPool, t: &MessageDescriptor) {
        let w = World { id: 0, pool: pool.clone(), types: vec![t.clone()] };
        let mut g = Gen::new(Rng(self.r.next()));
        g.depth = 2;
        g.unknown = 20;
        g.wkt_valid = 50;
        g.wire_bad = 10;
        let mut c = Case::new(&w, g);
        // messages from every source
        let t2 = t.clone();
        let m = self.usage(1, "new", || DynamicMessage::new(t2));
        let mut ms: Vec<DynamicMessage> = m.into_iter().collect();
        let mut b = vec![];
        if guard(|| c.wire_msg(t, 2, &mut b)).is_some() {
            if self.r.pct(40) {
                c.mutate(&mut b);
            }
            let r = guard(|| DynamicMessage::decode(t.clone(), b.as_slice()));
            ms.extend(self.attempt(1, "wire", r));
        }
        if let Some(m) = guard(|| c.g.msg(t, 2)) {
            ms.push(m)
        }
        if let Some(s) = guard(|| {
            let wrong = *c.g.r.pick(&[0u64, 4, 15]);
            let mut d = json::Doc { g: &mut c.g, wrong };
            let n = d.message(t, 2);
            json::print(&n, &mut c.g.r, true)
        }) {
            let deny = DeserializeOptions::new().deny_unknown_fields(self.r.pct(40));
            let r = guard(|| DynamicMessage::deserialize_with_options(t.clone(), &mut serde_json::Deserializer::from_str(&s), &deny));
            ms.extend(self.attempt(1, "json", r));
        }
        if let Some(s) = guard(|| c.gen_text(t)) {
            let r = guard(|| DynamicMessage::parse_text_format(t.clone(), &s));
            ms.extend(self.attempt(1, "text", r));
        }
        for m in ms {
            self.inspect(&m, &mut c.g.r);
        }
    }
    pub fn inspect(&mut self, m: &DynamicMessage, r: &mut Rng) {
        for (k, q, why) in inspect(m, r) {
            let k = &if self.dup { format!("{k} with two extensions of one number") } else { k.to_string() };
            self.ev.push(obj! {"o": J::s("use"), "x": J::Int(1), "k": J::s(k), "q": J::s(q), "why": J::s(&why)});
        }
    }
}

thread_local! { static WHY: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) } }
pub fn note_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        WHY.with(|w| *w.borrow_mut() = format!("{i}").chars().filter(|c| c.is_ascii() && !c.is_control()).take(300).collect());
        old(i)
    }));
}
fn why(q: &str) -> String {
    if q == "panic" {
        WHY.with(|w| w.borrow().clone())
    } else {
        String::new()
    }
}

/// Everything that can be asked of a message. Only failures are reported, and one summary.
pub fn inspect(m: &DynamicMessage, r: &mut Rng) -> Vec<(&'static str, &'static str, String)> {
    let mut out = vec![];
    let mut go = |k: &'static str, f: &mut dyn FnMut()| {
        if guard(f).is_none() {
            out.push((k, "panic", why("panic")))
        }
    };
    go("debug", &mut || {
        let _ = format!("{m:?}").len() + format!("{m:#?}").len();
    });
    go("encode", &mut || {
        let _ = m.encode_to_vec().len() + m.encoded_len() + m.encode_length_delimited_to_vec().len();
    });
    for i in 0..4u32 {
        let o = SerializeOptions::new().stringify_64_bit_integers(i & 1 > 0).use_enum_numbers(i & 2 > 0).use_proto_field_name(r.pct(50)).skip_default_fields(r.pct(50));
        go("json", &mut || {
            let mut v = vec![];
            let _ = m.serialize_with_options(&mut serde_json::Serializer::new(&mut v), &o);
        });
        let o = text::Opts::random(r);
        go("text", &mut || {
            let _ = m.to_text_format_with_options(&o.api());
        });
    }
    go("value", &mut || {
        let _ = serde_json::to_value(m).is_ok();
    });
    go("display", &mut || {
        let _ = format!("{m} {m:#} {}", Value::Message(m.clone()));
    });
    go("fields", &mut || {
        for (f, v) in m.fields() {
            let _ = (format!("{f:?} {v:?}").len(), v.is_default_for_field(&f), v.is_valid_for_field(&f), m.has_field(&f), format!("{v}").len());
        }
        for (f, v) in m.extensions() {
            let _ = (format!("{f:?} {v:?}").len(), v.is_default_for_extension(&f), v.is_valid_for_extension(&f), m.has_extension(&f), format!("{v}").len());
        }
        for u in m.unknown_fields() {
            let _ = format!("{u:?} {}", u.encoded_len());
        }
    });
    go("get", &mut || {
        for f in m.descriptor().fields() {
            let _ = (m.get_field(&f), m.get_field_by_name(f.name()), m.get_field_by_number(f.number()), m.has_field_by_name(f.name()), m.has_field_by_number(f.number()));
        }
        for f in m.descriptor().extensions() {
            let _ = (m.get_extension(&f), m.has_extension(&f));
        }
    });
    go("edit", &mut || {
        let mut c = m.clone();
        for f in m.descriptor().fields() {
            let _ = c.get_field_mut(&f);
        }
        for f in m.descriptor().extensions() {
            let _ = c.get_extension_mut(&f);
        }
        let _ = (c.encode_to_vec(), format!("{c:?}"), c == *m);
        for f in m.descriptor().fields() {
            let _ = c.take_field(&f);
            c.clear_field(&f);
        }
        for f in m.descriptor().extensions() {
            let _ = c.take_extension(&f);
            c.clear_extension(&f);
        }
        let _ = c.take_unknown_fields().count();
        c.clear();
    });
    go("clone", &mut || {
        let c = m.clone();
        let _ = (c == *m, Value::Message(c).as_message().is_some());
    });
    go("again", &mut || {
        let mut c = m.clone();
        let _ = c.merge(m.encode_to_vec().as_slice());
        let _ = c.transcode_from(m);
    });
    if out.is_empty() {
        out.push(("all", "ok", String::new()))
    }
    out
}

/// one history
pub fn run(h: &mut Rob, n: usize) {
    let sh = shapes();
    if n % 40 == 3 {
        late_mismatch(h, n);
        return;
    }
    if n % 40 == 23 {
        twice(h);
        return;
    }
    if n % 40 == 11 {
        own_options(h, n);
        return;
    }
    if n % 8 == 5 {
        options(h, &sh, n);
        return;
    }
    let mut g = SGen::new(Rng(h.r.next()));
    if h.r.pct(20) {
        g.pkg = Some("google.protobuf");
    }
    let nf = 1 + h.r.below(3);
    g.safe = true;
    let fs = g.schema(nf);
    let mut trees: Vec<Vec<Node>> = fs.iter().map(|f| read(&f.bytes(), "FileDescriptorProto", &sh)).collect();
    let names = all_names(&fs);
    let mut pool_names: Vec<Vec<u8>> = vec![];
    for t in &trees {
        strings(t, &mut pool_names);
    }
    pool_names.extend(names.iter().map(|s| s.as_bytes().to_vec()));
    let edits = *h.r.pick(&[1usize, 1, 1, 2, 3, 6, 20]);
    let mut walked = 0;
    let clean: Vec<Vec<u8>> = fs.iter().map(|f| f.bytes()).collect();
    for round in 0..6 {
        let k = h.r.below(nf);
        let saved = trees[k].clone();
        let mut m = Mutator { r: &mut h.r, sh: &sh, names: pool_names.clone() };
        for _ in 0..edits {
            m.edit(&mut trees[k]);
        }
        let mut files: Vec<Vec<u8>> = trees
            .iter()
            .map(|t| {
                let mut b = vec![];
                write(t, &mut b);
                b
            })
            .collect();
        if h.r.pct(8) {
            h.r.shuffle(&mut files)
        }
        if round == 0 || h.r.pct(60) {
            h.fresh(0);
        }
        let whole = h.r.pct(60);
        let mut any = false;
        if whole {
            any |= h.add(0, &files);
        } else {
            for f in &files {
                any |= h.add(0, std::slice::from_ref(f));
            }
        }
        if any && walked < 3 {
            walked += 1;
            h.walk(0, &names);
        }
        if !any {
            // the unedited files still get in
            trees[k] = saved;
            if h.r.pct(25) {
                h.add(0, &clean);
                h.walk(0, &names);
            }
        }
    }
}

/// edited files with options, next to option definitions
fn options(h: &mut Rob, sh: &Shapes, n: usize) {
    let mut hist = Hist::new(Rng(h.r.next()));
    let _ = opt::run(&mut hist, n);
    let fs = hist.files;
    let k = fs.len();
    let nf = (k - 3) / 2;
    // descriptor.proto and the option definitions first
    let mut defs: Vec<Vec<Node>> = [k - 3, k - 2].iter().map(|i| read(&fs[*i].bytes(), "FileDescriptorProto", sh)).collect();
    let mut names = vec![];
    for f in &fs {
        strings(&read(&f.bytes(), "FileDescriptorProto", sh), &mut names);
    }
    let edit_defs = h.r.pct(30);
    if edit_defs {
        for d in &mut defs {
            for _ in 0..h.r.below(3) {
                let mut m = Mutator { r: &mut h.r, sh, names: names.clone() };
                m.edit(d);
            }
        }
    }
    let bytes = |t: &Vec<Node>| {
        let mut b = vec![];
        write(t, &mut b);
        b
    };
    let d: Vec<Vec<u8>> = defs.iter().map(bytes).collect();
    if h.r.pct(85) {
        h.add(0, &d);
    }
    for _ in 0..4 {
        let i = h.r.below(2 * nf);
        let mut t = read(&fs[i].bytes(), "FileDescriptorProto", sh);
        let edits = *h.r.pick(&[1usize, 2, 4, 10]);
        for _ in 0..edits {
            let mut m = Mutator { r: &mut h.r, sh, names: names.clone() };
            m.edit(&mut t);
        }
        h.pools[1] = h.pools[0].clone();
        h.facts[1] = h.facts[0].clone();
        h.ev.push(obj! {"o": J::s("copy"), "x": J::Int(1), "from": J::Int(0)});
        if h.add(1, &[bytes(&t)]) {
            let pool = h.pools[1].clone();
            h.usage(1, "options", || opt::touch_options(&pool));
            h.usage(1, "debug", || format!("{pool:?}"));
            h.usage(1, "encode", || pool.encode_to_vec());
        }
    }
}

/// options whose bytes were fine until a later file gave their number another type
fn late_mismatch(h: &mut Rob, n: usize) {
    let parse = crate::proto::parse;
    let mut user = parse("u.proto", "syntax = \"proto2\"; package u; message M { optional int32 f = 1; }");
    let mut o = vec![];
    put_int(50100, 5, &mut o);
    user.msgs[0].opts = o;
    let desc = opt::full_descriptor();
    let ty = ["string", "bytes", "double", "fixed32"][(n / 40) % 4];
    let mut late = parse("l.proto", &format!("syntax = \"proto2\"; package l; import \"{}\"; extend google.protobuf.MessageOptions {{ optional {ty} x = 50100; }}", opt::DESC));
    late.syntax = Some("proto2".into());
    let ok = h.add(0, &[desc.bytes(), user.bytes()]);
    let pool = h.pools[0].clone();
    h.usage(0, "options", || opt::touch_options(&pool));
    if ok && h.add(0, &[late.bytes()]) {
        let pool = h.pools[0].clone();
        h.usage(0, "options-late-mismatch", || opt::touch_options(&pool));
        h.usage(0, "debug", || format!("{pool:?}"));
        h.usage(0, "encode", || pool.encode_to_vec());
    }
}

/// a pool whose option messages are not the usual ones
fn own_options(h: &mut Rob, n: usize) {
    let parse = crate::proto::parse;
    let ty = *h.r.pick(&["string", "int32", "bytes", "double", "repeated bool", "google.protobuf.FieldOptions", "fixed32"]);
    let ty = if ty.starts_with("repeated") { ty.to_string() } else { format!("optional {ty}") };
    let opt = *h.r.pick(&["packed", "deprecated", "lazy", "ctype"]);
    let num = match opt { "packed" => 2, "deprecated" => 3, "lazy" => 5, _ => 1 };
    let mut desc = parse(opt::DESC, &format!("syntax = \"proto2\"; package google.protobuf; message FieldOptions {{ {ty} {opt} = {num}; optional string uninterpreted_option = 999; }} message EnumOptions {{ optional FieldOptions allow_alias = 2; }} enum MessageOptions {{ A = 1; }}"));
    desc.syntax = Some("proto2".into());
    let mut user = parse("u.proto", "syntax = \"proto2\"; package u; message M { optional int32 f = 1; repeated int32 g = 2; enum E { Z = 0; } }");
    let part = |name: &str, ext: bool, value: &[u8]| {
        let mut p = vec![];
        put_str(1, name, &mut p);
        put_int(2, ext as i64, &mut p);
        let mut u = vec![];
        put_bytes(2, &p, &mut u);
        u.extend(value);
        let mut o = vec![];
        put_bytes(999, &u, &mut o);
        o
    };
    let mut v = vec![];
    match h.r.below(5) {
        0 => put_str(3, "true", &mut v),
        1 => put_str(7, "text", &mut v),
        2 => put_int(4, 7, &mut v),
        3 => put_str(8, "deprecated: true", &mut v),
        _ => put_str(8, &format!("{opt}: 1"), &mut v),
    }
    for f in &mut user.msgs[0].fields {
        f.opts = part(opt, false, &v);
    }
    if h.r.pct(50) {
        user.msgs[0].enums[0].opts = part("allow_alias", false, &v);
    }
    if h.r.pct(30) {
        put_int(999, 1, &mut user.msgs[0].fields[0].opts);
    }
    let late = n % 3 == 0;
    if late {
        h.add(0, &[user.bytes()]);
        h.add(0, &[desc.bytes()]);
    } else {
        h.add(0, &[desc.bytes()]);
        h.add(0, &[user.bytes()]);
    }
    let pool = h.pools[0].clone();
    h.usage(0, if late { "options-late-mismatch" } else { "options" }, || opt::touch_options(&pool));
    h.usage(0, "debug", || format!("{pool:?}"));
    h.usage(0, "encode", || pool.encode_to_vec());
}

/// two extensions of one message with the same number and different types
fn twice(h: &mut Rob) {
    let parse = crate::proto::parse;
    let ty = *h.r.pick(&["string", "bytes", "double", "fixed32", "int32"]);
    let mut a = parse("a.proto", "syntax = \"proto2\"; package a; message M { extensions 1 to 10; } extend M { optional int32 x = 5; }");
    a.syntax = Some("proto2".into());
    let mut b = parse("b.proto", &format!("syntax = \"proto2\"; package b; import \"a.proto\"; extend a.M {{ optional {ty} y = 5; }}"));
    b.syntax = Some("proto2".into());
    if h.add(0, &[a.bytes()]) && h.add(0, &[b.bytes()]) {
        let pool = h.pools[0].clone();
        let t = pool.get_message_by_name("a.M").unwrap();
        h.dup = t.extensions().count() == 2;
        for text in ["[a.x]: 1", if ty == "string" || ty == "bytes" { "[b.y]: \"s\"" } else { "[b.y]: 1" }] {
            let r = guard(|| DynamicMessage::parse_text_format(t.clone(), text));
            if let Some(m) = h.attempt(1, "text", r) {
                let mut r = Rng(h.r.next());
                h.inspect(&m, &mut r);
            }
        }
    }
}
