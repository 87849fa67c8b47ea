//! The global pool under concurrent use.  Every history runs in a process of its own (`child`),
//! with several threads; invocations and responses are stamped by one counter.
use crate::{gen::*, ir, js::J, msg::guard, obj, pool::*, rng::Rng, schema::*};
use prost::Message;
use prost_reflect::*;
use prost_types::FileDescriptorProto;
use std::sync::{
    atomic::{AtomicUsize, Ordering::SeqCst},
    Arc, Barrier,
};

#[derive(Clone, Debug)]
enum Op {
    /// files by index, handed over as one file descriptor or as an encoded set
    Add(Vec<usize>, bool),
    Junk(Vec<u8>),
    Snap(usize),
    /// on the thread's own copy
    Local(usize, usize),
    Look(usize),
    /// through the types that come with the library
    Use(usize),
}

struct Rec {
    stamp: usize,
    ev: J,
}
type Snap = Option<(DescriptorPool, Option<Handles>)>;

fn i(x: usize) -> J {
    J::Int(x as i64)
}
fn q(r: Option<Result<(), DescriptorError>>) -> J {
    J::s(match r {
        None => "panic",
        Some(Ok(())) => "ok",
        Some(Err(_)) => "err",
    })
}
fn known(f: &str) -> bool {
    f.starts_with("google/protobuf/")
}
fn look(p: &DescriptorPool, h: Option<&Handles>, pr: &Probes) -> J {
    guard(|| match h {
        Some(h) => h.dump(pr, None),
        None => Handles::of_but(p, known).dump(pr, Some(p)),
    })
    .unwrap_or(obj! {"t": J::s("panic")})
}
fn well_known_type(k: usize) -> bool {
    fn is<T: ReflectMessage + Default>(n: &str) -> bool {
        T::default().descriptor().full_name() == n
    }
    match k % 6 {
        0 => is::<prost_types::Timestamp>("google.protobuf.Timestamp"),
        1 => is::<prost_types::Duration>("google.protobuf.Duration"),
        2 => is::<prost_types::Struct>("google.protobuf.Struct"),
        3 => is::<prost_types::Any>("google.protobuf.Any"),
        4 => is::<prost_types::FileDescriptorProto>("google.protobuf.FileDescriptorProto"),
        _ => is::<u32>("google.protobuf.UInt32Value"),
    }
}

/// one history; prints it as one line
pub fn child(seed: u64, n: usize) {
    let mut r = Rng::sub(seed, n as u64);
    let mut g = SGen::new(Rng(r.next()));
    let nf = 3 + r.below(3);
    let mut files = g.schema(nf);
    for _ in 0..3 {
        let mut f = files[r.below(nf)].clone();
        g.mutate(&mut f);
        if r.pct(50) {
            f.name = Some(format!("other{}.proto", files.len()));
        }
        files.push(f);
    }
    // takes the name of a well-known file, or of a well-known type
    let mut f = files[r.below(nf)].clone();
    f.name = Some("google/protobuf/any.proto".into());
    files.push(f);
    files.push(claim(&mut r, "google.protobuf.Any", "taken.proto"));
    let total = files.len();
    let mut probes = Probes::new(&files);
    probes.names.retain(|n| !n.contains("google."));
    let probes = Arc::new(probes);
    let nt = 2 + r.below(3);
    let bar = Arc::new(Barrier::new(nt));
    let clock = Arc::new(AtomicUsize::new(1));
    let mut threads = vec![];
    let shared = Arc::new(files.clone());
    for t in 0..nt {
        let mut ops = vec![];
        let mut next = if t == 0 || r.pct(60) { 0 } else { r.below(nf) };
        let mut has: Vec<usize> = vec![];
        for _ in 0..2 + r.below(4) {
            let mut k = r.below(24);
            if k >= 14 && k <= 21 && has.is_empty() {
                k = 12;
            }
            ops.push(match k {
                0..=8 => {
                    // mostly along the order of imports, so that threads race for the same files
                    let mut b = vec![];
                    for _ in 0..1 + r.below(3) {
                        b.push(if r.pct(75) { next % nf } else { r.below(total) });
                        next += 1;
                    }
                    b.dedup();
                    let one = r.pct(50);
                    if one {
                        b.truncate(1);
                        next = next.min(b[0] + 1).max(1);
                    }
                    Op::Add(b, one)
                }
                9 => {
                    let mut b = file_set_bytes(&files[..1]);
                    b.pop();
                    Op::Junk(b)
                }
                10..=13 => {
                    let s = r.below(2);
                    has.push(s);
                    Op::Snap(s)
                }
                14..=17 => Op::Local(*r.pick(&has), if r.pct(60) { next % nf } else { r.below(total) }),
                18..=21 => Op::Look(*r.pick(&has)),
                _ => Op::Use(r.below(6)),
            });
        }
        let (bar, clock, files, probes, mut r) = (bar.clone(), clock.clone(), shared.clone(), probes.clone(), Rng(r.next()));
        threads.push(std::thread::spawn(move || {
            let mut recs: Vec<Rec> = vec![];
            let mut snaps: [Snap; 2] = [None, None];
            let decoded: Vec<FileDescriptorProto> = files.iter().map(|f| FileDescriptorProto::decode(f.bytes().as_slice()).expect("own bytes")).collect();
            let ready: Vec<(Op, Vec<u8>, Option<FileDescriptorProto>, u64)> = ops
                .into_iter()
                .map(|o| {
                    let (mut b, mut p) = (vec![], None);
                    if let Op::Add(fs, one) = &o {
                        let sel: Vec<File> = fs.iter().map(|i| files[*i].clone()).collect();
                        b = file_set_bytes(&sel);
                        if *one {
                            p = Some(decoded[fs[0]].clone());
                        }
                    }
                    (o, b, p, if r.pct(40) { r.next() % 3000 } else { 0 })
                })
                .collect();
            bar.wait();
            for (o, b, p, spin) in ready {
                for _ in 0..spin {
                    std::hint::spin_loop();
                }
                let start = clock.fetch_add(1, SeqCst);
                let (k, ev) = match &o {
                    Op::Add(fs, _) => {
                        let x = guard(|| match p {
                            Some(p) => DescriptorPool::add_global_file_descriptor_proto(p),
                            None => DescriptorPool::decode_global_file_descriptor_set(b.as_slice()),
                        });
                        ("add", obj! {"fs": J::Arr(fs.iter().map(|x| i(x + 1)).collect()), "q": q(x)})
                    }
                    Op::Junk(b) => ("junk", obj! {"q": q(guard(|| DescriptorPool::decode_global_file_descriptor_set(b.as_slice())))}),
                    Op::Snap(s) => {
                        let x = guard(DescriptorPool::global);
                        let ok = x.is_some();
                        if let Some(x) = x {
                            snaps[*s] = Some((x, None));
                        }
                        ("snap", obj! {"s": i(*s), "q": J::s(if ok { "ok" } else { "panic" })})
                    }
                    Op::Use(k) => ("use", obj! {"q": J::s(match guard(|| well_known_type(*k)) { Some(true) => "ok", Some(false) => "err", None => "panic" })}),
                    Op::Local(s, f) => match &mut snaps[*s] {
                        None => continue,
                        Some((p, h)) => {
                            if h.is_none() {
                                // descriptors of before
                                *h = guard(|| Handles::of_but(p, known));
                            }
                            let x = guard(|| p.add_file_descriptor_proto(decoded[*f].clone()));
                            recs.push(Rec { stamp: start, ev: obj! {"o": J::s("local"), "t": i(t), "s": i(*s), "fs": J::Arr(vec![i(*f + 1)]), "q": q(x)} });
                            continue;
                        }
                    },
                    Op::Look(s) => match &snaps[*s] {
                        None => continue,
                        Some((p, _)) => {
                            recs.push(Rec { stamp: start, ev: obj! {"o": J::s("look"), "t": i(t), "s": i(*s), "held": J::Bool(false), "d": look(p, None, &probes)} });
                            continue;
                        }
                    },
                };
                let end = clock.fetch_add(1, SeqCst);
                let mut inv = vec![("o", J::s("inv")), ("k", J::s(k)), ("t", i(t))];
                if let J::Obj(o) = ev {
                    inv.extend(o);
                }
                recs.push(Rec { stamp: start, ev: J::Obj(inv) });
                recs.push(Rec { stamp: end, ev: obj! {"o": J::s("ret"), "t": i(t)} });
            }
            (recs, snaps)
        }));
    }
    let mut recs = vec![];
    let mut left = vec![];
    for (t, h) in threads.into_iter().enumerate() {
        let (x, s) = h.join().expect("recorder thread");
        recs.extend(x);
        left.push((t, s));
    }
    recs.sort_by_key(|x| x.stamp);
    let mut ev: Vec<J> = recs.into_iter().map(|x| x.ev).collect();
    // when all is quiet: the global pool, and every copy
    match guard(DescriptorPool::global) {
        None => ev.push(obj! {"o": J::s("end"), "d": obj! {"t": J::s("panic")}}),
        Some(p) => {
            let base: Vec<String> = ir::well_known().into_iter().map(|f| f.name.unwrap()).collect();
            let kept = base.iter().all(|n| p.get_file_by_name(n).is_some()) && p.files().filter(|f| known(f.name())).count() == base.len();
            ev.push(obj! {"o": J::s("end"), "d": if kept { look(&p, None, &probes) } else { obj! {"t": J::s("lost")} }});
        }
    }
    for (t, s) in &left {
        for (k, x) in s.iter().enumerate() {
            if let Some((p, h)) = x {
                ev.push(obj! {"o": J::s("look"), "t": i(*t), "s": i(k), "held": J::Bool(false), "d": look(p, None, &probes)});
                if let Some(h) = h {
                    ev.push(obj! {"o": J::s("look"), "t": i(*t), "s": i(k), "held": J::Bool(true), "d": look(p, Some(h), &probes)});
                }
            }
        }
    }
    // dumps once each
    let mut dumps: Vec<J> = vec![];
    let mut texts = std::collections::HashMap::new();
    for e in &mut ev {
        if let J::Obj(o) = e {
            for (k, v) in o.iter_mut() {
                if *k == "d" {
                    let d = std::mem::replace(v, J::Int(0));
                    let id = *texts.entry(d.text()).or_insert_with(|| {
                        dumps.push(d);
                        dumps.len()
                    });
                    *v = i(id);
                }
            }
        }
    }
    println!("{}", obj! {"id": i(n + 1), "nt": i(nt), "files": files_json(&files), "dumps": J::Arr(dumps), "ev": J::Arr(ev)}.text());
}

/// what `seed` and `n` give, `jobs` at a time
pub fn parent(seed: u64, n: usize, dir: &str) {
    use std::io::Write;
    use std::process::*;
    let exe = std::env::current_exe().unwrap();
    let next = Arc::new(AtomicUsize::new(0));
    let dir = dir.to_string();
    let mut workers = vec![];
    for _ in 0..6 {
        let (exe, next, dir) = (exe.clone(), next.clone(), dir.clone());
        workers.push(std::thread::spawn(move || {
            let mut got = vec![];
            loop {
                let k = next.fetch_add(1, SeqCst);
                if k >= n {
                    return got;
                }
                let path = format!("{dir}/h{k}");
                let out = std::fs::File::create(&path).unwrap();
                let mut c = Command::new(&exe).args(["glob-child", "G01", &seed.to_string(), &k.to_string()]).stdin(Stdio::null()).stdout(out).stderr(Stdio::null()).spawn().unwrap();
                // a history that does not end (a lock never given back) is reported as such
                let t0 = std::time::Instant::now();
                let done = loop {
                    match c.try_wait().unwrap() {
                        Some(s) => break s.success(),
                        None if t0.elapsed().as_secs() > 60 => {
                            let _ = c.kill();
                            let _ = c.wait();
                            break false;
                        }
                        None => std::thread::sleep(std::time::Duration::from_millis(2)),
                    }
                };
                let text = std::fs::read_to_string(&path).unwrap_or_default();
                std::fs::remove_file(&path).unwrap();
                let line = text.lines().last().unwrap_or("").to_string();
                got.push((k, if done && line.ends_with('}') { line } else { obj! {"id": i(k + 1), "nt": i(1), "files": J::Arr(vec![]), "dumps": J::Arr(vec![]), "ev": J::Arr(vec![obj!{"o": J::s("crash")}])}.text() }));
            }
        }));
    }
    let mut all: Vec<(usize, String)> = workers.into_iter().flat_map(|w| w.join().unwrap()).collect();
    all.sort();
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap());
    let mut events = 0;
    let mut kinds: std::collections::BTreeMap<&str, usize> = Default::default();
    for (_, l) in &all {
        events += l.matches("{\"o\":\"").count();
        for k in ["inv", "ret", "local", "look", "end", "crash"] {
            *kinds.entry(k).or_default() += l.matches(&format!("{{\"o\":\"{k}\"")).count();
        }
        writeln!(f, "{l}").unwrap();
    }
    // the well-known files, for their names
    let base: Vec<File> = ir::well_known().into_iter().map(|f| stub(&f)).collect();
    std::fs::write(format!("{dir}/schemas.ndjson"), format!("{}\n", obj! {"files": files_json(&base)}.text())).unwrap();
    let kinds: Vec<String> = kinds.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect();
    println!("{{\"cases\":{},\"events\":{},\"ev\":{{{}}}}}", all.len(), events, kinds.join(","));
}
/// the names only
fn stub(f: &File) -> File {
    fn names(m: &Msg) -> Msg {
        Msg { name: m.name.clone(), msgs: m.msgs.iter().map(names).collect(), enums: m.enums.clone(), ..Default::default() }
    }
    File { name: f.name.clone(), package: f.package.clone(), msgs: f.msgs.iter().map(names).collect(), enums: f.enums.clone(), ..Default::default() }
}
