//! Histories of descriptor pools: executes them on the real code and records what happened.
use crate::{gen::*, js::J, msg::guard, obj, rng::Rng, schema::*, val::*};
use prost::Message;
use prost_reflect::*;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use std::collections::HashMap;

fn strs<T: AsRef<str>>(x: impl Iterator<Item = T>) -> J {
    J::Arr(x.map(|s| J::s(s.as_ref())).collect())
}
fn path(p: &[i32]) -> J {
    J::Arr(p.iter().map(|x| J::Int(*x as i64)).collect())
}
fn int(x: usize) -> J {
    J::Int(x as i64)
}
fn pair(a: J, b: J) -> J {
    J::Arr(vec![a, b])
}
fn card(c: Cardinality) -> J {
    J::Int(match c {
        Cardinality::Optional => 1,
        Cardinality::Required => 2,
        Cardinality::Repeated => 3,
    })
}
fn kind_name(k: &Kind) -> (&'static str, String) {
    match k {
        Kind::Double => ("double", String::new()),
        Kind::Float => ("float", String::new()),
        Kind::Int32 => ("int32", String::new()),
        Kind::Int64 => ("int64", String::new()),
        Kind::Uint32 => ("uint32", String::new()),
        Kind::Uint64 => ("uint64", String::new()),
        Kind::Sint32 => ("sint32", String::new()),
        Kind::Sint64 => ("sint64", String::new()),
        Kind::Fixed32 => ("fixed32", String::new()),
        Kind::Fixed64 => ("fixed64", String::new()),
        Kind::Sfixed32 => ("sfixed32", String::new()),
        Kind::Sfixed64 => ("sfixed64", String::new()),
        Kind::Bool => ("bool", String::new()),
        Kind::String => ("string", String::new()),
        Kind::Bytes => ("bytes", String::new()),
        Kind::Message(m) => ("message", m.full_name().to_string()),
        Kind::Enum(m) => ("enum", m.full_name().to_string()),
    }
}

/// collects failed cross-checks between accessors that describe the same thing
#[derive(Default)]
pub struct Why(Vec<String>);
impl Why {
    fn want(&mut self, c: bool, what: &str, who: &str) {
        if !c {
            self.0.push(format!("{what} {who}"));
        }
    }
}

struct Shape {
    kind: Kind,
    grp: bool,
    card: Cardinality,
    list: bool,
    map: bool,
    pk: bool,
    pres: bool,
    dflt: Value,
}
fn shape(s: Shape) -> J {
    let (k, tn) = kind_name(&s.kind);
    obj! {"k": J::s(k), "tn": J::s(&tn), "grp": J::Bool(s.grp), "card": card(s.card), "list": J::Bool(s.list), "map": J::Bool(s.map),
    "pk": J::Bool(s.pk), "pres": J::Bool(s.pres), "d": dump_value(&s.dflt, true)}
}

fn file_dump(f: &FileDescriptor, w: &mut Why) -> J {
    w.want(f.parent_pool().get_file_by_name(f.name()).as_ref() == Some(f), "get_file_by_name", f.name());
    w.want(&FileDescriptor::new(f.parent_pool().clone(), f.index()) == f, "FileDescriptor::new", f.name());
    let p = f.file_descriptor_proto();
    w.want(p.name() == f.name() && p.package() == f.package_name(), "file_descriptor_proto", f.name());
    w.want(f.messages().all(|m| &m.parent_file() == f && m.parent_message().is_none()), "messages", f.name());
    w.want(f.enums().all(|m| &m.parent_file() == f && m.parent_message().is_none()), "enums", f.name());
    w.want(f.services().all(|m| &m.parent_file() == f), "services", f.name());
    w.want(f.extensions().all(|m| &m.parent_file() == f && m.parent_message().is_none()), "extensions", f.name());
    w.want(f.messages().len() == f.messages().count() && f.dependencies().len() == f.dependencies().count(), "lengths", f.name());
    let _ = format!("{f:?}");
    obj! {
        "n": J::s(f.name()), "pkg": J::s(f.package_name()),
        "syn": J::s(match f.syntax() { Syntax::Proto2 => "proto2", Syntax::Proto3 => "proto3" }),
        "deps": strs(f.dependencies().map(|d| d.name().to_string())),
        "pub": strs(f.public_dependencies().map(|d| d.name().to_string())),
        "ms": strs(f.messages().map(|d| d.full_name().to_string())),
        "es": strs(f.enums().map(|d| d.full_name().to_string())),
        "xs": strs(f.extensions().map(|d| d.full_name().to_string())),
        "ss": strs(f.services().map(|d| d.full_name().to_string())),
    }
}

fn field_dump(f: &FieldDescriptor, m: &MessageDescriptor, w: &mut Why) -> J {
    let who = f.full_name();
    w.want(f.parent_message() == m && f.parent_file() == m.parent_file() && f.parent_pool() == m.parent_pool(), "field parent", who);
    let p = f.field_descriptor_proto();
    w.want(p.name() == f.name() && p.number() as u32 == f.number(), "field_descriptor_proto", who);
    w.want(f.is_required() == (f.cardinality() == Cardinality::Required), "is_required", who);
    if let Some(o) = f.containing_oneof() {
        w.want(o.parent_message() == m && o.fields().any(|x| &x == f), "containing_oneof", who);
    }
    if let Kind::Message(x) = f.kind() {
        w.want(x.parent_pool() == m.parent_pool() && f.kind().as_message() == Some(&x) && f.kind().as_enum().is_none(), "kind message", who);
    }
    if let Kind::Enum(x) = f.kind() {
        w.want(x.parent_pool() == m.parent_pool() && f.kind().as_enum() == Some(&x) && f.kind().as_message().is_none(), "kind enum", who);
    }
    let _ = format!("{f:?}");
    obj! {
        "n": J::s(f.name()), "full": J::s(f.full_name()), "num": J::Int(f.number() as i32 as i64), "json": J::s(f.json_name()), "path": path(f.path()),
        "req": J::Bool(f.is_required()),
        "of": J::s(f.containing_oneof().as_ref().map_or("", |o| o.name())),
        "k": shape(Shape { kind: f.kind(), grp: f.is_group(), card: f.cardinality(), list: f.is_list(), map: f.is_map(), pk: f.is_packed(),
            pres: f.supports_presence(), dflt: f.default_value() }),
    }
}

fn parent(m: Option<MessageDescriptor>) -> J {
    J::s(m.as_ref().map_or("", |m| m.full_name()))
}
fn ranges(r: impl Iterator<Item = std::ops::Range<u32>>) -> J {
    J::Arr(r.map(|r| pair(J::Int(r.start as i32 as i64), J::Int(r.end as i32 as i64))).collect())
}

fn msg_dump(m: &MessageDescriptor, pr: &Probes, w: &mut Why) -> J {
    let who = m.full_name();
    let p = m.descriptor_proto();
    w.want(p.name() == m.name() && p.field.len() == m.fields().len(), "descriptor_proto", who);
    w.want(m.parent_file_descriptor_proto().name() == m.parent_file().name(), "parent_file_descriptor_proto", who);
    w.want(m.fields().len() == m.fields().count() && m.oneofs().len() == m.oneofs().count() && m.extensions().len() == m.extensions().count(), "lengths", who);
    w.want(m.child_messages().all(|c| c.parent_message().as_ref() == Some(m)), "child_messages", who);
    w.want(m.child_enums().all(|c| c.parent_message().as_ref() == Some(m)), "child_enums", who);
    w.want(m.child_extensions().all(|c| c.parent_message().as_ref() == Some(m)), "child_extensions", who);
    w.want(m.extensions().all(|c| &c.containing_message() == m), "extensions", who);
    if m.is_map_entry() {
        let key = guard(|| m.map_entry_key_field().number());
        let val = guard(|| m.map_entry_value_field().number());
        w.want(key == m.get_field(1).map(|f| f.number()) && val == m.get_field(2).map(|f| f.number()), "map entry fields", who);
    }
    let _ = format!("{m:?}");
    let x = |e: Option<ExtensionDescriptor>| e.map(|e| e.full_name().to_string());
    let hits = |f: &dyn Fn(&str) -> Option<String>, from: &[String]| -> J {
        J::Arr(from.iter().filter_map(|n| f(n).map(|r| pair(J::s(n), J::s(&r)))).collect())
    };
    obj! {
        "n": J::s(m.name()), "full": J::s(m.full_name()), "pkg": J::s(m.package_name()), "fn": J::s(m.parent_file().name()),
        "parent": parent(m.parent_message()), "path": path(m.path()),
        "fs": J::Arr(m.fields().map(|f| field_dump(&f, m, w)).collect()),
        "os": J::Arr(m.oneofs().map(|o| {
            w.want(o.parent_message() == m && o.parent_file() == m.parent_file() && o.oneof_descriptor_proto().name() == o.name(), "oneof", o.full_name());
            let _ = format!("{o:?}");
            obj!{"n": J::s(o.name()), "full": J::s(o.full_name()), "path": path(o.path()),
                "fs": J::Arr(o.fields().map(|f| J::Int(f.number() as i32 as i64)).collect()), "syn": J::Bool(o.is_synthetic())}
        }).collect()),
        "cm": strs(m.child_messages().map(|d| d.full_name().to_string())),
        "ce": strs(m.child_enums().map(|d| d.full_name().to_string())),
        "cx": strs(m.child_extensions().map(|d| d.full_name().to_string())),
        "xs": strs(m.extensions().map(|d| d.full_name().to_string())),
        "xn": J::Arr(pr.numbers.iter().filter_map(|n| x(m.get_extension(*n)).map(|r| pair(J::Int(*n as i32 as i64), J::s(&r)))).collect()),
        "entry": J::Bool(m.is_map_entry()),
        "rr": ranges(m.reserved_ranges()), "rn": strs(m.reserved_names()), "er": ranges(m.extension_ranges()),
        "ln": J::Arr(pr.numbers.iter().filter_map(|n| m.get_field(*n).map(|f| pair(J::Int(*n as i32 as i64), J::s(f.full_name())))).collect()),
        "lm": hits(&|n| m.get_field_by_name(n).map(|f| f.full_name().to_string()), &pr.names),
        "lj": hits(&|n| m.get_field_by_json_name(n).map(|f| f.full_name().to_string()), &pr.names),
        "lx": J::Arr(pr.names.iter().filter(|n| m.get_extension_by_full_name(n).is_some_and(|x| x.full_name() == n.as_str())).map(|n| J::s(n)).collect()),
        "lxj": hits(&|n| x(m.get_extension_by_json_name(n)), &pr.names),
    }
}

fn ext_dump(f: &ExtensionDescriptor, w: &mut Why) -> J {
    let who = f.full_name();
    let p = f.field_descriptor_proto();
    w.want(p.name() == f.name() && p.number() as u32 == f.number(), "extension proto", who);
    w.want(f.containing_message().extensions().any(|x| &x == f), "containing_message", who);
    w.want(f.parent_file_descriptor_proto().name() == f.parent_file().name(), "extension file", who);
    w.want(f.containing_message().parent_pool() == f.parent_pool(), "extension pool", who);
    let _ = format!("{f:?}");
    obj! {
        "n": J::s(f.name()), "full": J::s(f.full_name()), "pkg": J::s(f.package_name()), "fn": J::s(f.parent_file().name()),
        "parent": parent(f.parent_message()), "path": path(f.path()), "num": J::Int(f.number() as i32 as i64), "json": J::s(f.json_name()),
        "to": J::s(f.containing_message().full_name()),
        "k": shape(Shape { kind: f.kind(), grp: f.is_group(), card: f.cardinality(), list: f.is_list(), map: f.is_map(), pk: f.is_packed(),
            pres: f.supports_presence(), dflt: f.default_value() }),
    }
}

fn enum_dump(e: &EnumDescriptor, pr: &Probes, w: &mut Why) -> J {
    let who = e.full_name();
    w.want(e.enum_descriptor_proto().name() == e.name() && e.enum_descriptor_proto().value.len() == e.values().len(), "enum proto", who);
    w.want(e.values().len() == e.values().count(), "lengths", who);
    w.want(e.parent_file_descriptor_proto().name() == e.parent_file().name(), "enum file", who);
    for v in e.values() {
        w.want(v.parent_enum() == e && v.parent_file() == e.parent_file(), "value parent", v.full_name());
        w.want(v.enum_value_descriptor_proto().name() == v.name() && v.enum_value_descriptor_proto().number() == v.number(), "value proto", v.full_name());
        w.want(e.get_value_by_name(v.name()).as_ref() == Some(&v), "get_value_by_name", v.full_name());
        let _ = format!("{v:?}");
    }
    let _ = format!("{e:?}");
    obj! {
        "n": J::s(e.name()), "full": J::s(e.full_name()), "pkg": J::s(e.package_name()), "fn": J::s(e.parent_file().name()),
        "parent": parent(e.parent_message()), "path": path(e.path()),
        "vs": J::Arr(e.values().map(|v| obj!{"n": J::s(v.name()), "full": J::s(v.full_name()), "num": J::Int(v.number() as i64), "path": path(v.path())}).collect()),
        "d": J::s(e.default_value().full_name()),
        "rr": J::Arr(e.reserved_ranges().map(|r| pair(J::Int(*r.start() as i64), J::Int(*r.end() as i64))).collect()),
        "rn": strs(e.reserved_names()),
        "lm": J::Arr(pr.names.iter().filter_map(|n| e.get_value_by_name(n).map(|v| pair(J::s(n), J::s(v.full_name())))).collect()),
        "ln": J::Arr(pr.values.iter().filter_map(|n| e.get_value(*n).map(|v| pair(J::Int(*n as i64), J::s(v.full_name())))).collect()),
    }
}

fn svc_dump(s: &ServiceDescriptor, w: &mut Why) -> J {
    let who = s.full_name();
    w.want(&ServiceDescriptor::new(s.parent_pool().clone(), s.index()) == s, "ServiceDescriptor::new", who);
    w.want(s.service_descriptor_proto().name() == s.name() && s.methods().len() == s.methods().count(), "service proto", who);
    w.want(s.parent_file_descriptor_proto().name() == s.parent_file().name(), "service file", who);
    let _ = format!("{s:?}");
    obj! {
        "n": J::s(s.name()), "full": J::s(s.full_name()), "pkg": J::s(s.package_name()), "fn": J::s(s.parent_file().name()), "path": path(s.path()),
        "ms": J::Arr(s.methods().map(|m| {
            w.want(m.parent_service() == s && m.parent_file() == s.parent_file() && &MethodDescriptor::new(s.clone(), m.index()) == &m, "method parent", m.full_name());
            w.want(m.method_descriptor_proto().name() == m.name() && m.input().parent_pool() == s.parent_pool(), "method proto", m.full_name());
            let _ = format!("{m:?}");
            obj!{"n": J::s(m.name()), "full": J::s(m.full_name()), "path": path(m.path()), "i": J::s(m.input().full_name()), "o": J::s(m.output().full_name()),
                "cs": J::Bool(m.is_client_streaming()), "ss": J::Bool(m.is_server_streaming())}
        }).collect()),
    }
}

/// names and numbers every lookup is tried with
pub struct Probes {
    pub names: Vec<String>,
    pub numbers: Vec<u32>,
    pub values: Vec<i32>,
}
impl Probes {
    pub fn new(fs: &[File]) -> Probes {
        let full = all_names(fs);
        let mut names = full.clone();
        names.extend(full.iter().map(|n| n.rsplit('.').next().unwrap().to_string()));
        names.extend(full.iter().map(|n| camel_lower(n.rsplit('.').next().unwrap())));
        names.extend(full.iter().map(|n| format!("[{n}]")));
        names.extend(full.iter().take(3).flat_map(|n| [format!(".{n}"), format!("{n}."), n.to_lowercase()]));
        names.push(String::new());
        let mut numbers = vec![0, u32::MAX];
        let mut values = vec![0, i32::MAX, i32::MIN, -1];
        fn msg(m: &Msg, names: &mut Vec<String>, numbers: &mut Vec<u32>, values: &mut Vec<i32>) {
            for f in m.fields.iter().chain(&m.exts) {
                field(f, names, numbers);
            }
            for e in &m.enums {
                en(e, values);
            }
            for x in &m.msgs {
                msg(x, names, numbers, values);
            }
        }
        fn field(f: &Field, names: &mut Vec<String>, numbers: &mut Vec<u32>) {
            names.extend(f.json.clone());
            if let Some(n) = f.num {
                numbers.extend([n as u32, (n as u32).wrapping_add(1), (n as u32).wrapping_sub(1)]);
            }
        }
        fn en(e: &Enum, values: &mut Vec<i32>) {
            for v in &e.vals {
                let n = v.1.unwrap_or(0);
                values.extend([n, n.wrapping_add(1), n.wrapping_sub(1)]);
            }
        }
        for f in fs {
            for m in &f.msgs {
                msg(m, &mut names, &mut numbers, &mut values);
            }
            for x in &f.exts {
                field(x, &mut names, &mut numbers);
            }
            for e in &f.enums {
                en(e, &mut values);
            }
        }
        names.sort();
        names.dedup();
        numbers.sort();
        numbers.dedup();
        values.sort();
        values.dedup();
        Probes { names, numbers, values }
    }
}

/// descriptors in hand
pub struct Handles {
    files: Vec<FileDescriptor>,
    msgs: Vec<MessageDescriptor>,
    enums: Vec<EnumDescriptor>,
    exts: Vec<ExtensionDescriptor>,
    svcs: Vec<ServiceDescriptor>,
    /// messages made from them, with their encoding at the time
    live: Vec<(DynamicMessage, Vec<u8>)>,
    /// files, messages and enums left out
    skip: [usize; 3],
}
impl Handles {
    /// leaving out the files with such names
    pub fn of_but(p: &DescriptorPool, no: impl Fn(&str) -> bool) -> Handles {
        let mut h = Handles::of(p, None);
        let n = [h.files.len(), h.msgs.len(), h.enums.len()];
        h.files.retain(|f| !no(f.name()));
        h.msgs.retain(|f| !no(f.parent_file().name()));
        h.enums.retain(|f| !no(f.parent_file().name()));
        h.exts.retain(|f| !no(f.parent_file().name()));
        h.svcs.retain(|f| !no(f.parent_file().name()));
        h.skip = [n[0] - h.files.len(), n[1] - h.msgs.len(), n[2] - h.enums.len()];
        h
    }
    pub fn of(p: &DescriptorPool, g: Option<&mut Gen>) -> Handles {
        let mut h = Handles {
            files: p.files().collect(),
            msgs: p.all_messages().collect(),
            enums: p.all_enums().collect(),
            exts: p.all_extensions().collect(),
            svcs: p.services().collect(),
            live: vec![],
            skip: [0; 3],
        };
        if let Some(g) = g {
            for m in h.msgs.iter().filter(|m| !m.is_map_entry()) {
                let x = g.msg(m, 2);
                let b = x.encode_to_vec();
                h.live.push((x, b));
            }
        }
        h
    }
    pub fn dump(&self, pr: &Probes, pool: Option<&DescriptorPool>) -> J {
        let mut w = Why::default();
        let mut look = vec![];
        if let Some(p) = pool {
            let k = self.skip;
            w.want(p.files().len() == self.files.len() + k[0] && p.all_messages().len() == self.msgs.len() + k[1] && p.all_enums().len() == self.enums.len() + k[2], "pool lengths", "");
            w.want(p.file_descriptor_protos().count() == self.files.len() + k[0], "file_descriptor_protos", "");
            let _ = format!("{p:?}");
            for n in &pr.names {
                if p.get_message_by_name(n).is_some_and(|m| m.full_name() == n) {
                    look.push(pair(J::s(n), J::s("msg")));
                }
                if p.get_enum_by_name(n).is_some_and(|m| m.full_name() == n) {
                    look.push(pair(J::s(n), J::s("enum")));
                }
                if p.get_extension_by_name(n).is_some_and(|m| m.full_name() == n) {
                    look.push(pair(J::s(n), J::s("ext")));
                }
                if p.get_service_by_name(n).is_some_and(|m| m.full_name() == n) {
                    look.push(pair(J::s(n), J::s("svc")));
                }
                w.want(p.get_file_by_name(n).map_or(true, |f| f.name() == n), "get_file_by_name", n);
            }
            for m in &self.msgs {
                w.want(p.get_message_by_name(m.full_name()).as_ref() == Some(m), "get_message_by_name", m.full_name());
            }
            for m in &self.enums {
                w.want(p.get_enum_by_name(m.full_name()).as_ref() == Some(m), "get_enum_by_name", m.full_name());
            }
            for m in &self.exts {
                w.want(p.get_extension_by_name(m.full_name()).as_ref() == Some(m), "get_extension_by_name", m.full_name());
            }
            for m in &self.svcs {
                w.want(p.get_service_by_name(m.full_name()).as_ref() == Some(m), "get_service_by_name", m.full_name());
            }
        }
        for (m, b) in &self.live {
            let again = DynamicMessage::decode(m.descriptor(), b.as_slice());
            w.want(&m.encode_to_vec() == b && again.is_ok_and(|x| x.encode_to_vec().len() == b.len()), "kept message", m.descriptor().full_name());
        }
        let files: Vec<J> = self.files.iter().map(|x| file_dump(x, &mut w)).collect();
        let msgs: Vec<J> = self.msgs.iter().map(|x| msg_dump(x, pr, &mut w)).collect();
        let enums: Vec<J> = self.enums.iter().map(|x| enum_dump(x, pr, &mut w)).collect();
        let exts: Vec<J> = self.exts.iter().map(|x| ext_dump(x, &mut w)).collect();
        let svcs: Vec<J> = self.svcs.iter().map(|x| svc_dump(x, &mut w)).collect();
        obj! {"t": J::s("ok"), "files": J::Arr(files), "msgs": J::Arr(msgs), "enums": J::Arr(enums), "exts": J::Arr(exts), "svcs": J::Arr(svcs),
        "look": J::Arr(look), "self": J::Bool(w.0.is_empty()), "why": strs(w.0.iter())}
    }
}

pub const NP: usize = 3;

pub struct Hist {
    pub r: Rng,
    pub files: Vec<File>,
    pub pools: Vec<DescriptorPool>,
    pub held: Vec<Option<Handles>>,
    pub ev: Vec<J>,
    pub dumps: Vec<J>,
    texts: HashMap<String, usize>,
    pub probes: Probes,
    pub tags: Vec<&'static str>,
}

pub const HOWS: &[&str] = &["protos", "decode_set", "one", "decode_one", "set"];

impl Hist {
    pub fn new(r: Rng) -> Hist {
        Hist { r, files: vec![], pools: vec![DescriptorPool::new(); NP], held: (0..NP).map(|_| None).collect(), ev: vec![], dumps: vec![], texts: HashMap::new(), probes: Probes { names: vec![], numbers: vec![], values: vec![] }, tags: vec![] }
    }
    pub fn intern(&mut self, d: J) -> usize {
        let t = d.text();
        if let Some(i) = self.texts.get(&t) {
            return *i;
        }
        self.dumps.push(d);
        self.texts.insert(t, self.dumps.len());
        self.dumps.len()
    }
    pub fn add(&mut self, p: usize, fs: &[usize], how: &'static str) -> bool {
        let (q, at) = self.add_to(p, fs, how);
        self.ev.push(obj! {"o": J::s("add"), "p": int(p), "fs": J::Arr(fs.iter().map(|x| int(x + 1)).collect()), "how": J::s(how), "q": J::s(q), "at": at});
        if q == "panic" {
            self.pools[p] = DescriptorPool::new();
        }
        q == "ok"
    }
    fn add_to(&mut self, p: usize, fs: &[usize], how: &'static str) -> (&'static str, J) {
        let sel: Vec<File> = fs.iter().map(|i| self.files[*i].clone()).collect();
        let protos = || -> Vec<FileDescriptorProto> { sel.iter().map(|f| FileDescriptorProto::decode(f.bytes().as_slice()).expect("own bytes")).collect() };
        let pool = &mut self.pools[p];
        let r = guard(|| match how {
            "one" if sel.len() == 1 => pool.add_file_descriptor_proto(protos().remove(0)),
            "decode_one" if sel.len() == 1 => pool.decode_file_descriptor_proto(sel[0].bytes().as_slice()),
            "decode_set" | "decode_one" => pool.decode_file_descriptor_set(file_set_bytes(&sel).as_slice()),
            "set" => pool.add_file_descriptor_set(FileDescriptorSet { file: protos() }),
            "new" => DescriptorPool::from_file_descriptor_set(FileDescriptorSet { file: protos() }).map(|x| *pool = x),
            "new_decode" => DescriptorPool::decode(file_set_bytes(&sel).as_slice()).map(|x| *pool = x),
            _ => pool.add_file_descriptor_protos(protos()),
        });
        match r {
            None => ("panic", J::s("")),
            Some(Ok(())) => ("ok", J::s("")),
            Some(Err(e)) => {
                if std::env::var("VH_ERR").is_ok() {
                    eprintln!("{fs:?} {e}");
                }
                // what the error says about the place
                let at = guard(|| {
                    let _ = format!("{e} {e:?}");
                    let l: Vec<J> = e.line().into_iter().chain(e.column()).map(|x| int(x)).collect();
                    obj! {"f": J::opt(e.file().map(J::s)), "p": J::opt(e.path().map(|p| J::Arr(p.iter().map(|x| J::Int(*x as i64)).collect()))), "l": J::Arr(l)}
                });
                match at {
                    None => ("panic", J::s("")),
                    Some(at) => ("err", at),
                }
            }
        }
    }
    pub fn fresh(&mut self, p: usize) {
        self.pools[p] = DescriptorPool::new();
        self.ev.push(obj! {"o": J::s("new"), "p": int(p)});
    }
    /// bytes that are no descriptor set: refused, and nothing changes
    pub fn junk(&mut self, p: usize) {
        let mut b = file_set_bytes(&[self.r.pick(&self.files.clone()).clone()]);
        b.pop();
        let pool = &mut self.pools[p];
        let one = self.r.pct(50);
        let r = guard(|| if one { pool.decode_file_descriptor_proto(&b[..]) } else { pool.decode_file_descriptor_set(&b[..]) });
        let q = match r {
            None => "panic",
            Some(Ok(())) => "ok",
            Some(Err(_)) => "err",
        };
        self.ev.push(obj! {"o": J::s("junk"), "p": int(p), "q": J::s(q)});
    }
    pub fn dump(&mut self, p: usize) {
        let (pool, pr) = (&self.pools[p], &self.probes);
        let d = guard(|| Handles::of(pool, None).dump(pr, Some(pool))).unwrap_or(obj! {"t": J::s("panic")});
        let d = self.intern(d);
        self.ev.push(obj! {"o": J::s("dump"), "p": int(p), "d": int(d)});
    }
    pub fn clone_pool(&mut self, p: usize, from: usize) {
        self.pools[p] = self.pools[from].clone();
        self.ev.push(obj! {"o": J::s("clone"), "p": int(p), "from": int(from)});
    }
    /// keep descriptors (and messages) of a pool
    pub fn hold(&mut self, h: usize, p: usize) {
        let mut g = Gen::new(Rng(self.r.next()));
        let pool = &self.pools[p];
        self.held[h] = guard(|| Handles::of(pool, Some(&mut g)));
        self.ev.push(obj! {"o": J::s("clone"), "p": int(NP + h), "from": int(p)});
    }
    pub fn look_held(&mut self, h: usize) {
        if self.held[h].is_none() {
            return;
        }
        let (x, pr) = (self.held[h].as_ref().unwrap(), &self.probes);
        let d = guard(|| x.dump(pr, None)).unwrap_or(obj! {"t": J::s("panic")});
        let d = self.intern(d);
        self.ev.push(obj! {"o": J::s("held"), "p": int(NP + h), "d": int(d)});
    }
    pub fn how(&mut self) -> &'static str {
        HOWS[self.r.below(HOWS.len())]
    }
    pub fn finish(self, id: usize) -> (J, usize, Vec<&'static str>) {
        let n = self.ev.len();
        (obj! {"id": int(id), "files": files_json(&self.files), "dumps": J::Arr(self.dumps), "ev": J::Arr(self.ev)}, n, self.tags)
    }
}

/// splits a sequence into consecutive pieces
fn pieces(r: &mut Rng, xs: &[usize]) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![];
    for x in xs {
        if v.is_empty() || r.pct(55) {
            v.push(vec![]);
        }
        v.last_mut().unwrap().push(*x);
    }
    v
}
/// a random order in which imports come before their importers
fn order(r: &mut Rng, fs: &[File], xs: &[usize]) -> Vec<usize> {
    let mut left: Vec<usize> = xs.to_vec();
    let mut out = vec![];
    while !left.is_empty() {
        let ready: Vec<usize> = left.iter().copied().filter(|x| !left.iter().any(|y| y != x && fs[*x].deps.contains(fs[*y].name.as_ref().unwrap()))).collect();
        let x = if ready.is_empty() { left[0] } else { *r.pick(&ready) };
        left.retain(|y| *y != x);
        out.push(x);
    }
    out
}

/// the process-wide pool before anything is added: the definitions of the well-known files
fn hist_known(h: &mut Hist) {
    h.files = crate::ir::files_of(include_bytes!("wkt25.bin"));
    h.probes = Probes::new(&h.files);
    let all: Vec<usize> = (0..h.files.len()).collect();
    h.add(0, &all, "set");
    h.dump(0);
    h.clone_pool(1, 0);
    h.pools[1] = DescriptorPool::global();
    h.dump(1);
    h.hold(0, 1);
    h.look_held(0);
}

/// source locations for the definitions of a file and for their parts
pub fn locate(r: &mut Rng, f: &mut File, dense: u64) {
    fn parts(p: &[i32], out: &mut Vec<Vec<i32>>) {
        out.push(p.to_vec());
        for t in [1, 2, 3, 6, 7] {
            out.push([p, &[t]].concat());
        }
    }
    fn enums(p: &[i32], tag: i32, es: &[crate::schema::Enum], out: &mut Vec<Vec<i32>>) {
        for (i, e) in es.iter().enumerate() {
            let p = [p, &[tag, i as i32]].concat();
            parts(&p, out);
            for j in 0..e.vals.len() {
                parts(&[&p[..], &[2, j as i32]].concat(), out);
            }
        }
    }
    fn msg(p: &[i32], m: &crate::schema::Msg, out: &mut Vec<Vec<i32>>) {
        parts(p, out);
        for (tag, n) in [(2, m.fields.len()), (6, m.exts.len()), (8, m.oneofs.len())] {
            (0..n).for_each(|j| parts(&[p, &[tag, j as i32]].concat(), out));
        }
        for (j, x) in m.msgs.iter().enumerate() {
            msg(&[p, &[3, j as i32]].concat(), x, out);
        }
        enums(p, 4, &m.enums, out);
    }
    let mut all = vec![vec![], vec![2], vec![12]];
    (0..f.deps.len() + 1).for_each(|i| all.push(vec![3, i as i32]));
    for (i, m) in f.msgs.iter().enumerate() {
        msg(&[4, i as i32], m, &mut all);
    }
    enums(&[], 5, &f.enums, &mut all);
    (0..f.exts.len()).for_each(|i| parts(&[7, i as i32], &mut all));
    for (i, s) in f.svcs.iter().enumerate() {
        parts(&[6, i as i32], &mut all);
        (0..s.methods.len()).for_each(|j| parts(&[6, i as i32, 2, j as i32], &mut all));
    }
    f.locs.clear();
    for (i, p) in all.into_iter().enumerate() {
        if !r.pct(dense) {
            continue;
        }
        let i = i as i32;
        let c = r.below(100) as i32;
        let s = match r.below(20) {
            0 => vec![i, c],
            1 => vec![i, c, i, c + 1, 9],
            2..=9 => vec![i, c, i + r.below(3) as i32, c + 4],
            _ => vec![i, c, c + 5],
        };
        f.locs.push((p.clone(), s));
        if r.pct(3) {
            f.locs.push((p, vec![i + 1000, c, c + 1]));
        }
    }
    if r.pct(30) {
        r.shuffle(&mut f.locs);
    }
}

pub fn run(profile: &str, h: &mut Hist, n: usize) {
    if profile == "X01" {
        return hist_known(h);
    }
    let mut g = SGen::new(Rng(h.r.next()));
    let nf = match profile {
        "D01" | "D02" => 2 + h.r.below(4),
        "D04" => 2 + h.r.below(3),
        _ => 1 + h.r.below(4),
    };
    let base = g.schema(nf);
    h.files = base.clone();
    let good: Vec<usize> = (0..nf).collect();
    // variants of the files with one or two edits, under the same file names
    let nv = match profile {
        "D05" | "D04" | "D08" => 6,
        "D02" => 1,
        "D06" => 1,
        _ => 4,
    };
    let mut bad = vec![];
    for _ in 0..nv {
        let i = h.r.below(nf);
        let mut f = base[i].clone();
        let edits = if h.r.pct(80) { 1 } else { 2 };
        for _ in 0..edits {
            let t = if profile == "D04" && h.r.pct(70) {
                let mut t = "";
                for _ in 0..40 {
                    let mut c = f.clone();
                    t = g.mutate(&mut c);
                    if matches!(t, "reference" | "import-removed" | "not-public" | "rename" | "package") {
                        f = c;
                        break;
                    }
                }
                t
            } else {
                g.mutate(&mut f)
            };
            h.tags.push(t);
        }
        bad.push(h.files.len());
        h.files.push(f);
    }
    if profile == "D01" {
        // files that claim names which failed additions mention
        for (k, b) in bad.iter().enumerate() {
            let ns: Vec<String> = all_names(&[h.files[*b].clone()]).into_iter().filter(|n| !n.is_empty()).collect();
            for i in 0..2 {
                let mut n = match (i, h.files[*b].package.clone()) {
                    (0, Some(p)) if !p.is_empty() => p,
                    _ if !ns.is_empty() => h.r.pick(&ns).clone(),
                    _ => "q".into(),
                };
                if i == 0 && h.r.pct(30) {
                    n = n.split('.').next().unwrap().to_string();
                }
                let f = claim(&mut h.r, &n, &format!("claim{k}{i}.proto"));
                h.files.push(f);
            }
        }
    }
    if profile == "D04" && h.r.pct(70) {
        let n = 2 + h.r.below(3);
        h.files = scopes(&mut h.r, n, 8);
        h.tags.push("scopes");
        h.probes = Probes::new(&h.files);
        let good: Vec<usize> = (0..n).collect();
        let ord: Vec<usize> = (n..n + 8).collect();
        return hist_scopes(h, &good, &ord);
    }
    h.probes = Probes::new(&h.files);
    if profile == "D08" {
        for i in 0..h.files.len() {
            if h.r.pct(85) {
                locate(&mut h.r, &mut h.files[i], 80);
            }
        }
    }
    match profile {
        "D08" if n % 3 == 0 => hist_any(h, &good, &bad),
        "D01" => hist_fail(h, &good, &bad, n),
        "D02" => hist_order(h, &good, &bad),
        "D03" => hist_clone(h, &good, &bad),
        "D04" | "D05" | "D08" => hist_single(h, &good, &bad),
        "D06" => hist_facts(h, &good, &bad),
        _ => hist_any(h, &good, &bad),
    }
}

fn name_of(h: &Hist, i: usize) -> String {
    h.files[i].name.clone().unwrap()
}

/// failed additions at every point, then the right ones
fn hist_fail(h: &mut Hist, good: &[usize], bad: &[usize], n: usize) {
    let ord = order(&mut h.r, &h.files.clone(), good);
    let ps = pieces(&mut h.r, &ord);
    for (k, p) in ps.iter().enumerate() {
        if n % 3 == 0 {
            // with other owners of the same pool around
            h.hold(0, 0);
        }
        for _ in 0..1 + h.r.below(2) {
            // the piece with one file replaced, or a file too many
            let mut b = p.clone();
            let x = *h.r.pick(bad);
            match b.iter().position(|i| name_of(h, *i) == name_of(h, x)) {
                Some(i) => b[i] = x,
                None => b.push(x),
            }
            if h.r.pct(40) {
                h.r.shuffle(&mut b);
            }
            if h.r.pct(20) && k + 1 < ps.len() {
                b.extend(ps[k + 1].iter().rev());
            }
            if h.r.pct(10) {
                let d = *h.r.pick(&b);
                b.push(d);
            }
            let how = h.how();
            let ok = h.add(0, &b, how);
            h.dump(0);
            if !ok && h.r.pct(25) {
                // names of the failed files are free again (unless someone else has them)
                let k = bad.iter().position(|y| *y == x).unwrap();
                let c = bad[bad.len() - 1] + 1 + 2 * k + h.r.below(2);
                let how = h.how();
                if h.r.pct(50) {
                    h.add(0, &[c], how);
                    h.dump(0);
                } else {
                    h.clone_pool(1, 0);
                    h.add(1, &[c], how);
                }
            }
            if ok {
                // another history from here on
                h.look_held(0);
                return hist_any(h, good, bad);
            }
        }
        if h.r.pct(15) {
            h.junk(0);
            h.dump(0);
        }
        let how = h.how();
        h.add(0, p, how);
        if h.r.pct(70) {
            h.dump(0);
        }
        if n % 3 == 0 {
            h.look_held(0);
        }
    }
    h.dump(0);
}

/// the same files delivered in different ways
fn hist_order(h: &mut Hist, good: &[usize], bad: &[usize]) {
    for p in 0..NP {
        let ord = order(&mut h.r, &h.files.clone(), good);
        let mut first = true;
        if h.r.pct(25) {
            // all at once in any order
            let mut o = ord.clone();
            h.r.shuffle(&mut o);
            let how = *h.r.pick(&["new", "new_decode", "protos", "decode_set", "set"]);
            h.add(p, &o, how);
        } else {
            for mut b in pieces(&mut h.r, &ord) {
                if h.r.pct(30) {
                    h.r.shuffle(&mut b);
                }
                let how = if first && h.r.pct(30) { *h.r.pick(&["new", "new_decode"]) } else { h.how() };
                first = false;
                h.add(p, &b, how);
                if h.r.pct(25) {
                    // again, mixed with others
                    let how = h.how();
                    let mut c = b.clone();
                    if h.r.pct(40) {
                        c.push(*h.r.pick(good));
                    }
                    h.add(p, &c, how);
                }
            }
        }
        h.dump(p);
        if h.r.pct(50) {
            let k = h.r.below(good.len());
            let mut o = good[..=k].to_vec();
            if h.r.pct(60) {
                o.push(bad[0]);
            }
            if h.r.pct(40) {
                o = good.to_vec();
            }
            let how = h.how();
            h.add(p, &o, how);
            h.dump(p);
        }
    }
}

fn hist_clone(h: &mut Hist, good: &[usize], bad: &[usize]) {
    let mut next = vec![0usize; NP];
    let ord = order(&mut h.r, &h.files.clone(), good);
    for _ in 0..10 {
        let p = h.r.below(NP);
        match h.r.below(10) {
            0..=4 => {
                let b = if next[p] < ord.len() && h.r.pct(80) {
                    next[p] += 1;
                    vec![ord[next[p] - 1]]
                } else {
                    vec![*h.r.pick(bad)]
                };
                let how = h.how();
                h.add(p, &b, how);
            }
            5 | 6 => {
                let q = h.r.below(NP);
                h.clone_pool(p, q);
                next[p] = next[q];
            }
            7 => {
                let k = h.r.below(NP);
                h.hold(k, p);
            }
            8 => {
                let k = h.r.below(NP);
                h.look_held(k);
            }
            _ => {
                h.dump(p);
            }
        }
    }
    for p in 0..NP {
        h.dump(p);
        h.look_held(p);
    }
}

/// one variant at a time on top of its imports
fn hist_single(h: &mut Hist, good: &[usize], bad: &[usize]) {
    for b in bad {
        h.fresh(0);
        let name = name_of(h, *b);
        let rest: Vec<usize> = good.iter().copied().filter(|g| name_of(h, *g) != name).collect();
        let before: Vec<usize> = rest.iter().copied().filter(|g| !depends(&h.files, *g, &name)).collect();
        if h.r.pct(50) {
            // everything in one batch
            let mut all = rest.clone();
            all.push(*b);
            if h.r.pct(50) {
                h.r.shuffle(&mut all);
            }
            let how = h.how();
            let ok = h.add(0, &all, how);
            if ok && h.r.pct(30) {
                h.dump(0);
            }
        } else {
            let how = h.how();
            let ok = h.add(0, &before, how);
            if ok {
                let how = h.how();
                let ok = h.add(0, &[*b], how);
                if ok && h.r.pct(30) {
                    h.dump(0);
                }
            }
        }
    }
}
/// references from all kinds of scopes
fn hist_scopes(h: &mut Hist, good: &[usize], vars: &[usize]) {
    let how = h.how();
    h.add(0, good, how);
    for v in vars {
        h.clone_pool(1, 0);
        let how = h.how();
        if h.add(1, &[*v], how) {
            h.dump(1);
        }
    }
}
fn depends(fs: &[File], i: usize, name: &str) -> bool {
    let mut todo = vec![i];
    let mut seen = vec![];
    while let Some(k) = todo.pop() {
        if seen.contains(&k) {
            continue;
        }
        seen.push(k);
        for d in &fs[k].deps {
            if d == name {
                return true;
            }
            todo.extend((0..fs.len()).filter(|j| fs[*j].name.as_ref() == Some(d)));
        }
    }
    false
}

fn hist_facts(h: &mut Hist, good: &[usize], bad: &[usize]) {
    let how = h.how();
    if h.r.pct(60) {
        h.add(0, good, how);
        h.dump(0);
    } else {
        for g in good {
            let how = h.how();
            h.add(0, &[*g], how);
            h.dump(0);
        }
    }
    let mut all: Vec<usize> = good.iter().copied().filter(|g| name_of(h, *g) != name_of(h, bad[0])).collect();
    all.push(bad[0]);
    let how = h.how();
    if h.add(1, &all, how) {
        h.dump(1);
    }
}

fn hist_any(h: &mut Hist, good: &[usize], bad: &[usize]) {
    for _ in 0..6 {
        let mut b = vec![];
        for _ in 0..1 + h.r.below(3) {
            let x = if h.r.pct(70) { *h.r.pick(good) } else { *h.r.pick(bad) };
            b.push(x);
        }
        let p = h.r.below(NP);
        let how = h.how();
        h.add(p, &b, how);
        h.dump(p);
    }
}
