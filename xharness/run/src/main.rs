//! Generated types (code written by xgen) and the well-known types against dynamic messages.
#![allow(dead_code, non_snake_case, clippy::all)]
#[macro_use]
#[path = "../../../harness/src/js.rs"]
mod js;
#[path = "../../../harness/src/canon.rs"]
mod canon;
#[path = "../../../harness/src/ir.rs"]
mod ir;
#[path = "../../../harness/src/msg.rs"]
mod msg;
#[path = "../../../harness/src/odd.rs"]
mod odd;
#[path = "../../../harness/src/proto.rs"]
mod proto;
#[path = "../../../harness/src/rng.rs"]
mod rng;
#[path = "../../../harness/src/schema.rs"]
mod schema;
#[path = "../../../harness/src/val.rs"]
mod val;
#[path = "../../../harness/src/wire.rs"]
mod wire;
#[path = "../../../harness/src/worlds.rs"]
mod worlds;
mod types;
mod robust {
    pub fn inspect(_: &prost_reflect::DynamicMessage, _: &mut crate::rng::Rng) -> Vec<(&'static str, &'static str, String)> {
        vec![]
    }
}
include!(concat!(env!("XGEN_DIR"), "/all.rs"));

use js::J;
use msg::*;
use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage, MessageDescriptor, ReflectMessage};
use rng::Rng;
use std::io::Write;
use std::sync::LazyLock;

pub const SET_BYTES: &[u8] = include_bytes!(concat!(env!("XGEN_DIR"), "/set.bin"));
pub static POOL: LazyLock<DescriptorPool> = LazyLock::new(|| DescriptorPool::decode(SET_BYTES).unwrap());

pub enum Op {
    /// a value from its encoding
    Bytes(Vec<u8>),
    /// a value from its encoding, merged into a dynamic message
    Onto(DynamicMessage, Vec<u8>),
    /// a dynamic message converted
    To(DynamicMessage),
    Name,
}
pub struct Got {
    q: &'static str,
    ev: Vec<(&'static str, J)>,
}

/// the file of the i-th type of `race`; takes a moment to make
pub fn race_set(i: usize) -> Vec<u8> {
    let mut src = format!("syntax = \"proto3\"; package race; message M{i} {{ int32 a = 1; }}");
    for k in 0..20 {
        src += &format!("message X{i}_{k} {{ int32 a = 1; string b = 2; X{i}_{k} c = 3; }}");
    }
    schema::file_set_bytes(&[proto::parse(&format!("race/{i}.proto"), &src)])
}

fn dump(m: &DynamicMessage) -> J {
    match guard(|| val::dump_msg(m, true)) {
        Some(d) => d.shallow(),
        None => panicked(),
    }
}
fn s(d: &MessageDescriptor) -> J {
    J::s(d.full_name())
}

pub fn go<T: ReflectMessage + Default + Clone>(op: &Op) -> Got {
    match op {
        Op::Name => match guard(|| T::default().descriptor()) {
            Some(d) => Got { q: "ok", ev: vec![("nm", s(&d))] },
            None => Got { q: "panic", ev: vec![("nm", J::s(""))] },
        },
        Op::Bytes(b) => {
            let Ok(t) = T::decode(b.as_slice()) else { return Got { q: "err", ev: vec![] } };
            let e = t.encode_to_vec();
            let r = guard(|| {
                let d = t.transcode_to_dynamic();
                let back = match d.transcode_to::<T>() {
                    Ok(x) => x.encode_to_vec() == e,
                    Err(_) => false,
                };
                let boxed: Box<dyn ReflectMessage> = Box::new(t.clone());
                let twice = Box::new(Box::new(t.clone())).transcode_to_dynamic();
                let again = d.transcode_to_dynamic();
                vec![("b", J::b(b)), ("e", J::b(&e)), ("nm", s(&t.descriptor())), ("nm2", s(&boxed.descriptor())), ("nm3", s(&d.descriptor())), ("d", dump(&d)), ("bd", dump(&twice)), ("dd", dump(&again)), ("back", J::Bool(back))]
            });
            match r {
                Some(ev) => Got { q: "ok", ev },
                None => Got { q: "panic", ev: vec![("b", J::b(b))] },
            }
        }
        Op::Onto(m, b) => {
            let Ok(t) = T::decode(b.as_slice()) else { return Got { q: "err", ev: vec![] } };
            let e = t.encode_to_vec();
            let m0 = dump(m);
            let mut x = m.clone();
            let q = match guard(|| x.transcode_from(&t)) {
                Some(Ok(())) => "ok",
                Some(Err(_)) => "refused",
                None => "panic",
            };
            Got { q, ev: vec![("m", m0), ("e", J::b(&e)), ("d", dump(&x))] }
        }
        Op::To(m) => {
            let m0 = dump(m);
            match guard(|| m.transcode_to::<T>().map(|t| dump(&t.transcode_to_dynamic()))) {
                Some(Ok(d)) => Got { q: "ok", ev: vec![("m", m0), ("d", d)] },
                Some(Err(_)) => Got { q: "refused", ev: vec![("m", m0), ("d", panicked())] },
                None => Got { q: "panic", ev: vec![("m", m0), ("d", panicked())] },
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Var {
    Pool,
    Bytes,
    Known(usize),
}
fn drive(v: Var, name: &str, op: &Op) -> Option<Got> {
    match v {
        Var::Pool => with_pool::drive(name, op),
        Var::Bytes => with_bytes::drive(name, op),
        Var::Known(k) => Some((types::TYPES[k].1)(op)),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var("VH_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5])).unwrap().join().unwrap();
}

fn ew(pool: &DescriptorPool) -> J {
    let mut v = vec![];
    for e in pool.all_enums() {
        for x in e.values() {
            if e.values().filter(|v| v.number() == x.number()).count() > 1 {
                if let Some(y) = e.get_value(x.number()) {
                    v.push(obj! {"e": J::s(e.full_name()), "n": J::b(&x.number().to_le_bytes()), "nm": J::s(y.name())});
                }
            }
        }
    }
    J::Arr(v)
}

fn run(seed: u64, ncases: usize, dir: &str) {
    std::fs::create_dir_all(dir).unwrap();
    let mut files = worlds::kitchen();
    files.extend(odd::files());
    canon::canon(&mut files);
    let known = ir::files_of(include_bytes!("../../../harness/src/wkt25.bin"));
    let mut sch = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/schemas.ndjson")).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap());
    let mut ws = vec![];
    for (i, fs) in [files, known].iter().enumerate() {
        let pool = DescriptorPool::decode(schema::file_set_bytes(fs).as_slice()).expect("valid schema refused");
        writeln!(sch, "{}", obj! {"files": schema::files_json(fs), "ew": ew(&pool)}.text()).unwrap();
        ws.push(World::new(i + 1, pool));
    }
    let cur = format!("{dir}/cur");
    let mut kinds: std::collections::BTreeMap<String, usize> = Default::default();
    let (mut nc, mut ne) = (0usize, 0usize);
    let mut put = |sch: usize, ev: Vec<J>| {
        if ev.is_empty() {
            return;
        }
        nc += 1;
        ne += ev.len();
        for e in &ev {
            if let J::Obj(o) = e {
                let get = |k: &str| o.iter().find(|x| x.0 == k).and_then(|x| if let J::Str(s) = &x.1 { Some(s.as_str()) } else { None });
                *kinds.entry(format!("{}.{}", get("o").unwrap_or(""), get("q").unwrap_or(""))).or_default() += 1;
            }
        }
        writeln!(out, "{}", obj! {"id": J::Int(nc as i64), "sch": J::Int(sch as i64), "ev": J::Arr(ev)}.text()).unwrap();
    };
    let event = |o: &str, mt: &str, exact: bool, g: Got| {
        let mut v = vec![("o", J::s(o)), ("x", J::Int(0)), ("mt", J::s(mt)), ("q", J::s(g.q)), ("exact", J::Bool(exact))];
        v.extend(g.ev);
        J::Obj(v)
    };
    let gens: Vec<String> = ws[0].types.iter().map(|t| t.full_name().to_string()).filter(|n| with_pool::drive(n, &Op::Name).is_some()).collect();
    let _ = DescriptorPool::global();
    // every type's descriptor, first asked for from several threads at once
    std::fs::write(&cur, "0").unwrap();
    let mut all: Vec<(Var, String)> = vec![];
    for v in [Var::Bytes, Var::Pool] {
        all.extend(gens.iter().map(|n| (v, n.clone())));
    }
    all.extend(types::TYPES.iter().enumerate().map(|(k, t)| (Var::Known(k), t.0.to_string())));
    let gate = std::sync::Barrier::new(8);
    let evs: Vec<Vec<J>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8)
            .map(|k| {
                let (all, gate, event) = (&all, &gate, &event);
                sc.spawn(move || {
                    gate.wait();
                    let n = all.len();
                    (0..n).map(|i| (i * 7 + k * 3) % n).filter(|i| (i + k) % 4 == 0 || *i < 40).map(|i| event("name", &all[i].1, false, drive(all[i].0, &all[i].1, &Op::Name).unwrap())).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for e in evs {
        put(1, e);
    }
    for (i, f) in race::TYPES.iter().enumerate() {
        let gate = std::sync::Barrier::new(4);
        let name = format!("race.M{i}");
        let evs: Vec<J> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..4)
                .map(|_| {
                    let (gate, name, event) = (&gate, &name, &event);
                    sc.spawn(move || {
                        gate.wait();
                        event("name", name, false, f(&Op::Name))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        put(1, evs);
    }
    put(1, all.iter().map(|(v, n)| event("name", n, false, drive(*v, n, &Op::Name).unwrap())).collect());
    for n in 0..ncases {
        std::fs::write(&cur, n.to_string()).unwrap();
        let w = if n % 3 == 2 { &ws[1] } else { &ws[0] };
        let mut c = Case::new(w, val::Gen::new(Rng::sub(seed, n as u64)));
        c.g.unknown = 10;
        c.g.wkt_valid = 30;
        let (v, name) = if n % 3 == 2 {
            let k = c.g.r.below(types::TYPES.len());
            (Var::Known(k), types::TYPES[k].0.to_string())
        } else {
            (*c.g.r.pick(&[Var::Pool, Var::Bytes]), c.g.r.pick(&gens).clone())
        };
        let t = w.ty(&name);
        let exact = !matches!(v, Var::Known(_));
        let mut ev = vec![];
        let bytes = |c: &mut Case| {
            let mut b = vec![];
            if c.g.r.pct(40) {
                c.wire_msg(&t, 2, &mut b);
            } else {
                let d = c.g.depth;
                let m = c.g.msg(&t, d);
                b = m.encode_to_vec();
            }
            b
        };
        let r = guard(|| {
            for _ in 0..3 {
                let (o, op) = match c.g.r.below(10) {
                    0..=4 => ("gen", Op::Bytes(bytes(&mut c))),
                    5 | 6 => {
                        let m = c.g.msg(&t, 2);
                        ("from", Op::Onto(m, bytes(&mut c)))
                    }
                    _ => {
                        let d = c.g.depth;
                        ("to", Op::To(c.g.msg(&t, d)))
                    }
                };
                let g = drive(v, &name, &op).unwrap();
                if g.q != "err" {
                    ev.push(event(o, &name, exact, g));
                }
            }
        });
        if r.is_none() {
            ev.push(obj! {"o": J::s("crash"), "x": J::Int(0), "where": J::s("making values"), "mt": J::s(&name)});
        }
        put(w.id, ev);
    }
    drop(put);
    sch.flush().unwrap();
    out.flush().unwrap();
    let kinds: Vec<String> = kinds.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect();
    println!("{{\"cases\":{nc},\"events\":{ne},\"schemas\":{},\"ev\":{{{}}}}}", ws.len(), kinds.join(","));
}
