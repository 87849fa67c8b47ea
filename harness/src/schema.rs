//! Schema IR: an independent description of .proto files from which both the file descriptor
//! bytes given to the code under test and the JSON read by the TLA+ specification are produced.
use crate::{js::J, obj, wire::*};

#[derive(Clone, Debug, Default)]
pub struct File {
    pub name: Option<String>,
    pub package: Option<String>,
    pub syntax: Option<String>,
    pub deps: Vec<String>,
    pub public: Vec<i32>,
    pub weak: Vec<i32>,
    pub msgs: Vec<Msg>,
    pub enums: Vec<Enum>,
    pub svcs: Vec<Svc>,
    pub exts: Vec<Field>,
    pub split: bool,
    pub opts: Vec<u8>,
    /// raw SourceCodeInfo
    pub src_info: Vec<u8>,
    /// source locations: path and span
    pub locs: Vec<(Vec<i32>, Vec<i32>)>,
}

#[derive(Clone, Debug, Default)]
pub struct Msg {
    pub name: Option<String>,
    pub fields: Vec<Field>,
    pub oneofs: Vec<Option<String>>,
    pub msgs: Vec<Msg>,
    pub enums: Vec<Enum>,
    pub exts: Vec<Field>,
    pub ext_ranges: Vec<(i32, i32)>,
    pub res_ranges: Vec<(i32, i32)>,
    pub res_names: Vec<String>,
    pub map_entry: bool,
    /// the option is given in source form
    pub entry_src: bool,
    pub split: bool,
    pub opts: Vec<u8>,
    /// raw options of each oneof, by index (missing = none)
    pub oneof_opts: Vec<Vec<u8>>,
    pub range_opts: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, Default)]
pub struct Field {
    pub name: Option<String>,
    pub num: Option<i32>,
    /// 1 optional, 2 required, 3 repeated; 0 absent
    pub label: i32,
    /// FieldDescriptorProto.Type; 0 absent
    pub ty: i32,
    pub tname: Option<String>,
    pub extendee: Option<String>,
    pub json: Option<String>,
    pub dflt: Option<String>,
    pub oneof: Option<i32>,
    pub p3opt: bool,
    pub packed: Option<bool>,
    pub packed_src: bool,
    pub deprecated: Option<bool>,
    pub split: bool,
    pub opts: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct Enum {
    pub name: Option<String>,
    pub vals: Vec<(Option<String>, Option<i32>)>,
    pub alias: bool,
    pub alias_src: bool,
    /// inclusive
    pub res_ranges: Vec<(i32, i32)>,
    pub res_names: Vec<String>,
    pub split: bool,
    pub opts: Vec<u8>,
    pub val_opts: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, Default)]
pub struct Method {
    pub name: Option<String>,
    pub input: Option<String>,
    pub output: Option<String>,
    pub cs: bool,
    pub ss: bool,
    pub split: bool,
    pub opts: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct Svc {
    pub name: Option<String>,
    pub methods: Vec<Method>,
    pub split: bool,
    pub opts: Vec<u8>,
}

pub mod ty {
    pub const DOUBLE: i32 = 1;
    pub const FLOAT: i32 = 2;
    pub const INT64: i32 = 3;
    pub const UINT64: i32 = 4;
    pub const INT32: i32 = 5;
    pub const FIXED64: i32 = 6;
    pub const FIXED32: i32 = 7;
    pub const BOOL: i32 = 8;
    pub const STRING: i32 = 9;
    pub const GROUP: i32 = 10;
    pub const MESSAGE: i32 = 11;
    pub const BYTES: i32 = 12;
    pub const UINT32: i32 = 13;
    pub const ENUM: i32 = 14;
    pub const SFIXED32: i32 = 15;
    pub const SFIXED64: i32 = 16;
    pub const SINT32: i32 = 17;
    pub const SINT64: i32 = 18;
}

/// an options field; options marked so come in two pieces
fn put_opts(num: u32, opts: &[u8], split: bool, out: &mut Vec<u8>) {
    if !split {
        return put_bytes(num, opts, out);
    }
    let k = first_field(opts);
    put_bytes(num, &opts[..k], out);
    put_bytes(num, &opts[k..], out);
}
/// the length of the first field (all of it if that is not a plain one)
fn first_field(b: &[u8]) -> usize {
    fn varint(b: &[u8], i: &mut usize) -> u64 {
        let (mut v, mut s) = (0u64, 0);
        while *i < b.len() {
            let x = b[*i];
            *i += 1;
            v |= ((x & 127) as u64) << s;
            s += 7;
            if x < 128 || s > 63 {
                break;
            }
        }
        v
    }
    let mut i = 0;
    let k = varint(b, &mut i);
    match k & 7 {
        0 => {
            varint(b, &mut i);
        }
        1 => i += 8,
        5 => i += 4,
        2 => {
            let n = varint(b, &mut i) as usize;
            i += n;
        }
        _ => i = b.len(),
    }
    i.min(b.len())
}

/// a boolean option, set or still in source form
fn put_flag(name: &str, num: u32, v: bool, src: bool, out: &mut Vec<u8>) {
    if !src {
        return put_int(num, v as i64, out);
    }
    let mut part = vec![];
    put_str(1, name, &mut part);
    put_int(2, 0, &mut part);
    let mut u = vec![];
    put_bytes(2, &part, &mut u);
    put_str(3, if v { "true" } else { "false" }, &mut u);
    put_bytes(999, &u, out);
}

fn jstr(x: &Option<String>) -> J {
    J::opt(x.as_ref().map(|s| J::s(s)))
}
fn jint(x: Option<i32>) -> J {
    J::opt(x.map(|s| J::Int(s as i64)))
}
fn jref(x: &Option<String>) -> J {
    J::opt(x.as_ref().map(|s| {
        let (abs, rest) = match s.strip_prefix('.') {
            Some(r) => (true, r),
            None => (false, s.as_str()),
        };
        obj! {"abs": J::Bool(abs), "segs": J::Arr(rest.split('.').map(J::s).collect())}
    }))
}
fn jranges(x: &[(i32, i32)]) -> J {
    J::Arr(
        x.iter()
            .map(|(a, b)| J::Arr(vec![J::Int(*a as i64), J::Int(*b as i64)]))
            .collect(),
    )
}
fn jints(x: &[i32]) -> J {
    J::Arr(x.iter().map(|i| J::Int(*i as i64)).collect())
}
fn jstrs(x: &[String]) -> J {
    J::Arr(x.iter().map(|s| J::s(s)).collect())
}

impl File {
    pub fn json(&self) -> J {
        obj! {
            "name": jstr(&self.name),
            "pkg": J::Arr(match &self.package { Some(p) if !p.is_empty() => p.split('.').map(J::s).collect(), _ => vec![] }),
            "syntax": jstr(&self.syntax),
            "deps": jstrs(&self.deps),
            "pub": J::Arr(self.public.iter().map(|i| J::Int(*i as i64)).collect()),
            "weak": J::Arr(self.weak.iter().map(|i| J::Int(*i as i64)).collect()),
            "msgs": J::Arr(self.msgs.iter().map(Msg::json).collect()),
            "enums": J::Arr(self.enums.iter().map(Enum::json).collect()),
            "svcs": J::Arr(self.svcs.iter().map(Svc::json).collect()),
            "exts": J::Arr(self.exts.iter().map(Field::json).collect()),
            "locs": J::Arr(self.locs.iter().map(|(p, s)| obj! {"p": jints(p), "s": jints(s)}).collect()),
        }
    }
    fn locations(&self) -> Vec<u8> {
        let mut o = vec![];
        for (p, s) in &self.locs {
            let mut l = vec![];
            for (num, xs) in [(1, p), (2, s)] {
                let mut b = vec![];
                xs.iter().for_each(|x| varint(*x as u64, &mut b));
                put_bytes(num, &b, &mut l);
            }
            put_bytes(1, &l, &mut o);
        }
        o
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        if let Some(x) = &self.name {
            put_str(1, x, &mut o);
        }
        if let Some(x) = &self.package {
            put_str(2, x, &mut o);
        }
        for d in &self.deps {
            put_str(3, d, &mut o);
        }
        for m in &self.msgs {
            put_bytes(4, &m.bytes(), &mut o);
        }
        for m in &self.enums {
            put_bytes(5, &m.bytes(), &mut o);
        }
        for m in &self.svcs {
            put_bytes(6, &m.bytes(), &mut o);
        }
        for m in &self.exts {
            put_bytes(7, &m.bytes(), &mut o);
        }
        if !self.opts.is_empty() {
            put_opts(8, &self.opts, self.split, &mut o);
        }
        if !self.src_info.is_empty() {
            put_bytes(9, &self.src_info, &mut o);
        } else if !self.locs.is_empty() {
            put_bytes(9, &self.locations(), &mut o);
        }
        for p in &self.public {
            put_int(10, *p as i64, &mut o);
        }
        for p in &self.weak {
            put_int(11, *p as i64, &mut o);
        }
        if let Some(x) = &self.syntax {
            put_str(12, x, &mut o);
        }
        o
    }
}

impl Msg {
    pub fn json(&self) -> J {
        obj! {
            "name": jstr(&self.name),
            "fields": J::Arr(self.fields.iter().map(Field::json).collect()),
            "oneofs": J::Arr(self.oneofs.iter().map(jstr).collect()),
            "msgs": J::Arr(self.msgs.iter().map(Msg::json).collect()),
            "enums": J::Arr(self.enums.iter().map(Enum::json).collect()),
            "exts": J::Arr(self.exts.iter().map(Field::json).collect()),
            "extr": jranges(&self.ext_ranges),
            "resr": jranges(&self.res_ranges),
            "resn": jstrs(&self.res_names),
            "mapentry": J::Bool(self.map_entry),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        if let Some(x) = &self.name {
            put_str(1, x, &mut o);
        }
        for f in &self.fields {
            put_bytes(2, &f.bytes(), &mut o);
        }
        for f in &self.msgs {
            put_bytes(3, &f.bytes(), &mut o);
        }
        for f in &self.enums {
            put_bytes(4, &f.bytes(), &mut o);
        }
        for (i, (a, b)) in self.ext_ranges.iter().enumerate() {
            let mut r = vec![];
            put_int(1, *a as i64, &mut r);
            put_int(2, *b as i64, &mut r);
            if let Some(x) = self.range_opts.get(i) {
                if !x.is_empty() {
                    put_bytes(3, x, &mut r);
                }
            }
            put_bytes(5, &r, &mut o);
        }
        for f in &self.exts {
            put_bytes(6, &f.bytes(), &mut o);
        }
        let mut opts = vec![];
        if self.map_entry {
            put_flag("map_entry", 7, true, self.entry_src, &mut opts);
        }
        opts.extend_from_slice(&self.opts);
        if !opts.is_empty() {
            put_opts(7, &opts, self.split, &mut o);
        }
        for (i, x) in self.oneofs.iter().enumerate() {
            let mut r = vec![];
            if let Some(x) = x {
                put_str(1, x, &mut r);
            }
            if let Some(x) = self.oneof_opts.get(i) {
                if !x.is_empty() {
                    put_bytes(2, x, &mut r);
                }
            }
            put_bytes(8, &r, &mut o);
        }
        for (a, b) in &self.res_ranges {
            let mut r = vec![];
            put_int(1, *a as i64, &mut r);
            put_int(2, *b as i64, &mut r);
            put_bytes(9, &r, &mut o);
        }
        for x in &self.res_names {
            put_str(10, x, &mut o);
        }
        o
    }
}

impl Field {
    pub fn json(&self) -> J {
        obj! {
            "name": jstr(&self.name),
            "num": jint(self.num),
            "label": J::Int(self.label as i64),
            "ty": J::Int(self.ty as i64),
            "tname": jref(&self.tname),
            "extendee": jref(&self.extendee),
            "json": jstr(&self.json),
            "dflt": J::opt(self.dflt.as_ref().map(|d| J::b(d.as_bytes()))),
            "dstr": J::opt(self.dflt.as_ref().filter(|d| d.is_ascii()).map(|d| J::s(d))),
            "oneof": jint(self.oneof),
            "p3opt": J::Bool(self.p3opt),
            "packed": J::opt(self.packed.map(J::Bool)),
            "wf": float_witness(self.dflt.as_deref()),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        if let Some(x) = &self.name {
            put_str(1, x, &mut o);
        }
        if let Some(x) = &self.extendee {
            put_str(2, x, &mut o);
        }
        if let Some(x) = self.num {
            put_int(3, x as i64, &mut o);
        }
        if self.label != 0 {
            put_int(4, self.label as i64, &mut o);
        }
        if self.ty != 0 {
            put_int(5, self.ty as i64, &mut o);
        }
        if let Some(x) = &self.tname {
            put_str(6, x, &mut o);
        }
        if let Some(x) = &self.dflt {
            put_str(7, x, &mut o);
        }
        let mut opts = vec![];
        if let Some(x) = self.packed {
            put_flag("packed", 2, x, self.packed_src, &mut opts);
        }
        if let Some(x) = self.deprecated {
            put_int(3, x as i64, &mut opts);
        }
        opts.extend_from_slice(&self.opts);
        if !opts.is_empty() {
            put_opts(8, &opts, self.split, &mut o);
        }
        if let Some(x) = self.oneof {
            put_int(9, x as i64, &mut o);
        }
        if let Some(x) = &self.json {
            put_str(10, x, &mut o);
        }
        if self.p3opt {
            put_int(17, 1, &mut o);
        }
        o
    }
}

/// Floating point value of a numeric default (nearest double / float by the standard library).
fn float_witness(s: Option<&str>) -> J {
    let s = match s {
        Some(s) => s,
        None => return J::Arr(vec![]),
    };
    let body = s.strip_prefix(['-', '+']).unwrap_or(s);
    let numeric = !body.is_empty()
        && (body.as_bytes()[0].is_ascii_digit() || body.as_bytes()[0] == b'.')
        && body.bytes().all(|b| b.is_ascii_digit() || b".eE+-".contains(&b));
    match (numeric, s.parse::<f64>(), s.parse::<f32>()) {
        (true, Ok(d), Ok(f)) => J::Arr(vec![
            J::b(&d.to_bits().to_le_bytes()),
            J::b(&f.to_bits().to_le_bytes()),
        ]),
        _ => J::Arr(vec![]),
    }
}

impl Enum {
    pub fn json(&self) -> J {
        obj! {
            "name": jstr(&self.name),
            "vals": J::Arr(self.vals.iter().map(|(n, v)| obj!{"name": jstr(n), "num": jint(*v)}).collect()),
            "alias": J::Bool(self.alias),
            "resr": jranges(&self.res_ranges),
            "resn": jstrs(&self.res_names),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        if let Some(x) = &self.name {
            put_str(1, x, &mut o);
        }
        for (i, (n, v)) in self.vals.iter().enumerate() {
            let mut r = vec![];
            if let Some(n) = n {
                put_str(1, n, &mut r);
            }
            if let Some(v) = v {
                put_int(2, *v as i64, &mut r);
            }
            if let Some(x) = self.val_opts.get(i) {
                if !x.is_empty() {
                    put_bytes(3, x, &mut r);
                }
            }
            put_bytes(2, &r, &mut o);
        }
        let mut opts = vec![];
        if self.alias {
            put_flag("allow_alias", 2, true, self.alias_src, &mut opts);
        }
        opts.extend_from_slice(&self.opts);
        if !opts.is_empty() {
            put_opts(3, &opts, self.split, &mut o);
        }
        for (a, b) in &self.res_ranges {
            let mut r = vec![];
            put_int(1, *a as i64, &mut r);
            put_int(2, *b as i64, &mut r);
            put_bytes(4, &r, &mut o);
        }
        for x in &self.res_names {
            put_str(5, x, &mut o);
        }
        o
    }
}

impl Svc {
    pub fn json(&self) -> J {
        obj! {
            "name": jstr(&self.name),
            "methods": J::Arr(self.methods.iter().map(|m| obj!{
                "name": jstr(&m.name), "input": jref(&m.input), "output": jref(&m.output),
                "cs": J::Bool(m.cs), "ss": J::Bool(m.ss)}).collect()),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        if let Some(x) = &self.name {
            put_str(1, x, &mut o);
        }
        for m in &self.methods {
            let mut r = vec![];
            if let Some(x) = &m.name {
                put_str(1, x, &mut r);
            }
            if let Some(x) = &m.input {
                put_str(2, x, &mut r);
            }
            if let Some(x) = &m.output {
                put_str(3, x, &mut r);
            }
            if !m.opts.is_empty() {
                put_bytes(4, &m.opts, &mut r);
            }
            if m.cs {
                put_int(5, 1, &mut r);
            }
            if m.ss {
                put_int(6, 1, &mut r);
            }
            put_bytes(2, &r, &mut o);
        }
        if !self.opts.is_empty() {
            put_opts(3, &self.opts, self.split, &mut o);
        }
        o
    }
}

pub fn file_set_bytes(files: &[File]) -> Vec<u8> {
    let mut o = vec![];
    for f in files {
        put_bytes(1, &f.bytes(), &mut o);
    }
    o
}
pub fn files_json(files: &[File]) -> J {
    J::Arr(files.iter().map(File::json).collect())
}
