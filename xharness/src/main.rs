//! Runs the build helper: code for the fixed schemas (to be compiled into xrun), and the attributes it attaches for random ones.
#![allow(dead_code)]
#[macro_use]
#[path = "../../harness/src/js.rs"]
mod js;
#[path = "../../harness/src/canon.rs"]
mod canon;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/odd.rs"]
mod odd;
#[path = "../../harness/src/proto.rs"]
mod proto;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/schema.rs"]
mod schema;
#[path = "../../harness/src/wire.rs"]
mod wire;
#[path = "../../harness/src/worlds.rs"]
mod worlds;

use js::J;
use rng::Rng;
use schema::File;
use std::{
    fs,
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var("VH_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match args[1].as_str() {
        "code" => code(&args[2]),
        "attrs" => attrs(args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5]),
        _ => panic!("usage"),
    }
}

/// What one generated struct carries.
struct Item {
    module: String,
    path: String,
    derives: usize,
    names: Vec<String>,
    pools: Vec<String>,
}

fn lit(e: &syn::Expr) -> String {
    match e {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
        _ => "?".into(),
    }
}
fn attr(a: &syn::Attribute, it: &mut Item) {
    if a.path().is_ident("derive") {
        if let Ok(ps) = a.parse_args_with(syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated) {
            it.derives += ps.iter().filter(|p| p.segments.last().is_some_and(|s| s.ident == "ReflectMessage")).count();
        }
    } else if a.path().is_ident("prost_reflect") {
        if let Ok(ms) = a.parse_args_with(syn::punctuated::Punctuated::<syn::MetaNameValue, syn::Token![,]>::parse_terminated) {
            for m in ms {
                if m.path.is_ident("message_name") {
                    it.names.push(lit(&m.value));
                } else if m.path.is_ident("descriptor_pool") {
                    it.pools.push(format!("pool:{}", lit(&m.value)));
                } else if m.path.is_ident("file_descriptor_set_bytes") {
                    it.pools.push(format!("bytes:{}", lit(&m.value)));
                }
            }
        }
    }
}
/// structs in the order of the file: a message comes before the module of its nested messages
fn walk(items: &[syn::Item], module: &str, path: &str, out: &mut Vec<Item>) {
    for i in items {
        match i {
            syn::Item::Struct(s) => {
                let mut it = Item { module: module.into(), path: format!("{path}::{}", s.ident), derives: 0, names: vec![], pools: vec![] };
                for a in &s.attrs {
                    attr(a, &mut it);
                }
                out.push(it);
            }
            syn::Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    walk(items, module, &format!("{path}::{}", m.ident), out);
                }
            }
            _ => {}
        }
    }
}

enum How<'a> {
    Pool(&'a str),
    Bytes(&'a str),
    Plain,
    Neither,
    /// both given
    Both(&'a str),
}

/// Generates code for the files of `fds`.  None: a panic; Err: refused.
fn generate(fds: &Path, out: &Path, how: &How, split: bool) -> Option<Result<(), String>> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut config = prost_build::Config::new();
        config.out_dir(out).btree_map(["."]);
        config.skip_protoc_run();
        let none: &[&str] = &[];
        if let How::Plain = how {
            config.file_descriptor_set_path(fds);
            return config.compile_protos(none, none).map_err(|e| e.to_string());
        }
        let mut b = prost_reflect_build::Builder::new();
        b.file_descriptor_set_path(fds);
        match how {
            How::Pool(e) => {
                b.descriptor_pool(*e);
            }
            How::Bytes(e) => {
                b.file_descriptor_set_bytes(*e);
            }
            How::Both(e) => {
                b.descriptor_pool(*e).file_descriptor_set_bytes(format!("{e}.bytes"));
            }
            _ => {}
        }
        if split {
            // the two steps of the documentation
            b.configure(&mut config, none, none).map_err(|e| e.to_string())?;
            config.skip_protoc_run().compile_protos(none, none).map_err(|e| e.to_string())
        } else {
            b.compile_protos_with_config(config, none, none).map_err(|e| e.to_string())
        }
    }))
    .ok()
}

/// package -> structs
fn read(out: &Path) -> Vec<(String, Vec<Item>)> {
    let mut v: Vec<PathBuf> = fs::read_dir(out).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().is_some_and(|e| e == "rs")).collect();
    v.sort();
    v.iter()
        .map(|p| {
            let pkg = p.file_stem().unwrap().to_str().unwrap().to_string();
            let pkg = if pkg == "_" { String::new() } else { pkg };
            let f = syn::parse_file(&fs::read_to_string(p).unwrap()).expect("generated code parses");
            let mut items = vec![];
            walk(&f.items, &pkg, "", &mut items);
            (pkg, items)
        })
        .collect()
}

/// the full names of the messages of a package in the order of the generated structs
fn names(files: &[File], pkg: &str) -> Vec<String> {
    fn go(m: &schema::Msg, scope: &str, out: &mut Vec<String>) {
        let n = m.name.clone().unwrap_or_default();
        let full = if scope.is_empty() { n } else { format!("{scope}.{n}") };
        if m.map_entry {
            return;
        }
        out.push(full.clone());
        for x in &m.msgs {
            go(x, &full, out);
        }
    }
    let mut v = vec![];
    for f in files {
        if f.package.clone().unwrap_or_default() == pkg {
            for m in &f.msgs {
                go(m, pkg, &mut v);
            }
        }
    }
    v
}

/// code for the fixed schemas, in two variants, and the table of their types
fn code(dir: &str) {
    let mut files = worlds::kitchen();
    files.extend(odd::files());
    canon::canon(&mut files);
    let d = Path::new(dir);
    fs::create_dir_all(d).unwrap();
    let fds = d.join("set.bin");
    fs::write(&fds, schema::file_set_bytes(&files)).unwrap();
    let mut all = String::new();
    for (var, how) in [("with_pool", How::Pool("crate::POOL")), ("with_bytes", How::Bytes("crate::SET_BYTES"))] {
        let out = d.join(var);
        let _ = fs::remove_dir_all(&out);
        fs::create_dir_all(&out).unwrap();
        match generate(&fds, &out, &how, var == "with_bytes") {
            Some(Ok(())) => {}
            Some(Err(e)) => {
                println!("REFUSED {e}");
                std::process::exit(3)
            }
            None => {
                println!("PANIC");
                std::process::exit(3)
            }
        }
        // modules as prost-build nests them
        #[derive(Default)]
        struct Node {
            file: Option<PathBuf>,
            subs: std::collections::BTreeMap<String, Node>,
        }
        let mut root = Node::default();
        let mut table = String::new();
        for (pkg, items) in read(&out) {
            if pkg.starts_with("google.") {
                continue;
            }
            let mut n = &mut root;
            let mut path = format!("crate::{var}");
            for s in pkg.split('.').filter(|s| !s.is_empty()) {
                path += &format!("::{s}");
                n = n.subs.entry(s.to_string()).or_default();
            }
            n.file = Some(out.join(format!("{}.rs", if pkg.is_empty() { "_" } else { &pkg })));
            let ns = names(&files, &pkg);
            assert_eq!(ns.len(), items.len(), "structs of {pkg}");
            for (full, it) in ns.iter().zip(&items) {
                table += &format!("        \"{full}\" => Some(go::<{path}{}>(op)),\n", it.path);
            }
        }
        fn emit(n: &Node, out: &mut String) {
            if let Some(f) = &n.file {
                out.push_str(&format!("include!(\"{}\");\n", f.display()));
            }
            for (s, x) in &n.subs {
                out.push_str(&format!("pub mod {s} {{\n"));
                emit(x, out);
                out.push_str("}\n");
            }
        }
        all += &format!("pub mod {var} {{\n");
        emit(&root, &mut all);
        all += &format!("pub fn drive(name: &str, op: &crate::Op) -> Option<crate::Got> {{\n    use crate::go;\n    match name {{\n{table}        _ => None,\n    }}\n}}\n}}\n");
    }
    // types whose descriptors come from a set of their own
    all += "pub mod race {\n";
    let mut table = String::new();
    for i in 0..RACE {
        all += &format!("#[derive(Clone, PartialEq, ::prost::Message, ::prost_reflect::ReflectMessage)]\n#[prost_reflect(message_name = \"race.M{i}\", file_descriptor_set_bytes = \"crate::race_set({i}).as_slice()\")]\npub struct M{i} {{\n#[prost(int32, tag = \"1\")]\npub a: i32,\n}}\n");
        table += &format!("    crate::go::<M{i}>,\n");
    }
    all += &format!("pub const TYPES: &[fn(&crate::Op) -> crate::Got] = &[\n{table}];\n}}\n");
    // keep the file's time stamp when nothing changed
    let p = d.join("all.rs");
    if fs::read_to_string(&p).ok().as_deref() != Some(&all) {
        fs::write(p, all).unwrap();
    }
    println!("{{}}");
}

const RACE: usize = 40;

/// random schemas
fn attrs(seed: u64, ncases: usize, dir: &str) {
    fs::create_dir_all(dir).unwrap();
    let d = Path::new(dir);
    let mut cases = std::io::BufWriter::new(fs::File::create(d.join("cases.ndjson")).unwrap());
    fs::write(d.join("schemas.ndjson"), "{\"files\":[],\"ew\":[]}\n").unwrap();
    let cur = d.join("cur");
    let (mut done, mut kinds) = (0, std::collections::BTreeMap::<String, usize>::new());
    for n in 0..ncases {
        fs::write(&cur, n.to_string()).unwrap();
        let mut r = Rng::sub(seed, n as u64);
        let nf = 1 + r.below(4);
        let files = schema_for(&mut r, nf);
        let tmp = d.join("gen");
        let _ = fs::remove_dir_all(&tmp);
        fs::create_dir_all(tmp.join("plain")).unwrap();
        fs::create_dir_all(tmp.join("refl")).unwrap();
        let fds = tmp.join("set.bin");
        fs::write(&fds, schema::file_set_bytes(&files)).unwrap();
        // only schemas the code generator itself can handle
        if !matches!(generate(&fds, &tmp.join("plain"), &How::Plain, false), Some(Ok(()))) {
            *kinds.entry("unsupported".into()).or_default() += 1;
            continue;
        }
        if catch_unwind(AssertUnwindSafe(|| read(&tmp.join("plain")))).is_err() {
            *kinds.entry("unsupported".into()).or_default() += 1;
            continue;
        }
        let (how, want) = match r.below(12) {
            0..=4 => (How::Pool("crate::POOL"), "pool:crate::POOL"),
            5..=9 => (How::Bytes("crate::x::BYTES"), "bytes:crate::x::BYTES"),
            10 => (How::Both("crate::BOTH"), "pool:crate::BOTH"),
            _ => (How::Neither, ""),
        };
        let got = generate(&fds, &tmp.join("refl"), &how, r.below(2) == 0);
        let q = match &got {
            None => "panic",
            Some(Ok(())) => "ok",
            Some(Err(_)) => "err",
        };
        let mut pkgs = vec![];
        if q == "ok" {
            for (pkg, items) in read(&tmp.join("refl")) {
                let its = items.iter().map(|i| obj! {"d": J::Int(i.derives as i64), "n": J::Arr(i.names.iter().map(|s| J::s(s)).collect()), "p": J::Arr(i.pools.iter().map(|s| J::s(s)).collect())}).collect();
                pkgs.push(obj! {"pkg": J::s(&pkg), "items": J::Arr(its)});
            }
        }
        *kinds.entry(format!("attrs.{q}")).or_default() += 1;
        let e = obj! {"o": J::s("attrs"), "q": J::s(q), "want": J::s(want), "files": schema::files_json(&files), "pkgs": J::Arr(pkgs)};
        done += 1;
        writeln!(cases, "{}", obj! {"id": J::Int(done), "sch": J::Int(1), "ev": J::Arr(vec![e])}.text()).unwrap();
    }
    let _ = fs::remove_dir_all(d.join("gen"));
    cases.flush().unwrap();
    let kinds: Vec<String> = kinds.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect();
    println!("{{\"cases\":{done},\"events\":{done},\"ev\":{{{}}}}}", kinds.join(","));
}

fn schema_for(r: &mut Rng, nf: usize) -> Vec<File> {
    let mut g = gen::SGen::new(Rng(r.next()));
    g.safe = true;
    let mut v = g.schema(nf);
    canon::canon(&mut v);
    v
}
