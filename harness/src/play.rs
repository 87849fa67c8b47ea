//! Replays histories found by the closed models of the specification on the real code.
use crate::{js::J, msg::*, obj, val::*};
use prost_reflect::*;
use serde_json::Value as JV;

fn bytes(v: &JV) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}
/// a value as the specification writes it
pub fn value(w: &World, v: &JV) -> Value {
    let s = || bytes(&v["s"]);
    let n4 = || <[u8; 4]>::try_from(s().as_slice()).unwrap();
    let n8 = || <[u8; 8]>::try_from(s().as_slice()).unwrap();
    match v["t"].as_str().unwrap() {
        "bool" => Value::Bool(s()[0] == 1),
        "i32" => Value::I32(i32::from_le_bytes(n4())),
        "i64" => Value::I64(i64::from_le_bytes(n8())),
        "u32" => Value::U32(u32::from_le_bytes(n4())),
        "u64" => Value::U64(u64::from_le_bytes(n8())),
        "enum" => Value::EnumNumber(i32::from_le_bytes(n4())),
        "string" => Value::String(String::from_utf8(s()).unwrap()),
        "bytes" => Value::Bytes(s().into()),
        "list" => Value::List(list(&v["l"]).iter().map(|x| value(w, x)).collect()),
        "map" => Value::Map(list(&v["p"]).iter().map(|kv| (value(w, &kv[0]).into_map_key().unwrap(), value(w, &kv[1]))).collect()),
        "msg" => {
            let t = w.ty(v["n"].as_str().unwrap());
            let mut m = DynamicMessage::new(t.clone());
            for e in list(&v["m"]) {
                let f = field(&t, e["n"].as_u64().unwrap() as u32);
                Gen::set(&mut m, &f, value(w, &e["v"]));
            }
            Value::Message(m)
        }
        t => panic!("value {t}"),
    }
}
/// TLC writes the empty sequence as an empty list or an empty object
pub fn list(v: &JV) -> Vec<JV> {
    v.as_array().cloned().unwrap_or_default()
}
pub fn field(t: &MessageDescriptor, n: u32) -> Fd {
    t.get_field(n).map(Fd::F).or_else(|| t.get_extension(n).map(Fd::X)).unwrap()
}

/// one operation on register x; i chooses how the field is addressed
pub fn op(c: &mut Case, x: usize, o: &JV, i: usize) {
    let t = match &c.regs[x] {
        Some(m) => m.descriptor(),
        None => return,
    };
    let f = o["n"].as_u64().map(|n| field(&t, n as u32));
    let by = match &f {
        Some(Fd::X(_)) => "ext",
        _ => ["desc", "num", "name"][i % 3],
    };
    let (n, nm) = match &f {
        Some(f) => (f.number() as i64, if by == "name" { t.get_field(f.number()).unwrap().name().to_string() } else { String::new() }),
        None => (0, String::new()),
    };
    match o["o"].as_str().unwrap() {
        "set" => {
            let v = value(c.w, &o["v"]);
            let f = f.unwrap();
            if matches!(f, Fd::X(_)) || valid_shape(&f, &v) {
                c.set_with(x, &f, by, n, nm, v, by != "ext" && i % 2 == 0)
            } else {
                c.set_with(x, &f, by, n, nm, v, true)
            }
        }
        "clear" | "take" => c.clear_with(x, &f.unwrap(), by, n, nm, o["o"] == "take"),
        "mut" => {
            let f = f.unwrap();
            let a = list(&o["a"]);
            let act = ["none", "push", "ins", "del", "sub", "subclear"].into_iter().find(|k| *k == o["act"]).unwrap();
            let m = c.regs[x].as_mut().unwrap();
            let w = c.w;
            let mut rec = vec![];
            let q = match guard(|| {
                let slot = match (by, &f) {
                    ("ext", Fd::X(e)) => Some(m.get_extension_mut(e)),
                    ("desc", Fd::F(f)) => Some(m.get_field_mut(f)),
                    ("num", _) => m.get_field_by_number_mut(n as u32),
                    _ => m.get_field_by_name_mut(&nm),
                };
                let Some(slot) = slot else { return false };
                let v = |i: usize| value(w, &a[i]);
                match (act, slot) {
                    ("push", Value::List(l)) => {
                        rec.push(dump_value(&v(0), true));
                        l.push(v(0))
                    }
                    ("ins", Value::Map(p)) => {
                        rec.extend([dump_value(&v(0), true), dump_value(&v(1), true)]);
                        p.insert(v(0).into_map_key().unwrap(), v(1));
                    }
                    ("del", Value::Map(p)) => {
                        rec.push(dump_value(&v(0), true));
                        p.remove(&v(0).into_map_key().unwrap());
                    }
                    ("sub", Value::Message(s)) => {
                        let sf = field(&s.descriptor(), a[0].as_u64().unwrap() as u32);
                        rec.extend([J::Int(sf.number() as i64), dump_value(&v(1), true)]);
                        Gen::set(s, &sf, v(1));
                    }
                    ("subclear", Value::Message(s)) => {
                        let sf = field(&s.descriptor(), a[0].as_u64().unwrap() as u32);
                        rec.push(J::Int(sf.number() as i64));
                        match &sf {
                            Fd::F(f) => s.clear_field(f),
                            Fd::X(f) => s.clear_extension(f),
                        }
                    }
                    _ => {}
                }
                true
            }) {
                None => "panic",
                Some(true) => "ok",
                Some(false) => "notfound",
            };
            let d = c.d(x);
            c.clean[x] = false;
            c.ev.push(obj! {"o": J::s("mut"), "x": J::Int(x as i64), "by": J::s(by), "n": J::Int(n), "nm": J::s(&nm), "act": J::s(act), "a": J::Arr(rec), "q": J::s(q), "d": d});
        }
        "merge" => c.merge(x, &bytes(&o["b"])),
        "clearall" => c.op_clearall(x),
        "drain" => {
            let kind = ["f", "e", "u"].into_iter().find(|k| *k == o["kind"]).unwrap();
            c.drain_with(x, kind, o["k"].as_u64().unwrap() as usize)
        }
        "itermut" => {
            let a = list(&o["a"]);
            let w = c.w;
            let m = c.regs[x].as_mut().unwrap();
            let r = guard(|| {
                let (mut ns, mut asg) = (vec![], vec![]);
                for (f, v) in m.fields_mut() {
                    ns.push(J::Int(f.number() as i64));
                    if let Some(e) = a.iter().find(|e| e[0].as_u64() == Some(f.number() as u64)) {
                        let nv = value(w, &e[1]);
                        asg.push(J::Arr(vec![J::Int(f.number() as i64), dump_value(&nv, true)]));
                        *v = nv;
                    }
                }
                (ns, asg)
            });
            let (ns, asg) = r.unwrap_or((vec![J::Int(-1)], vec![]));
            let d = c.d(x);
            c.clean[x] = false;
            c.ev.push(obj! {"o": J::s("itermut"), "x": J::Int(x as i64), "ext": J::Bool(false), "ns": J::Arr(ns), "a": J::Arr(asg), "d": d});
        }
        k => panic!("operation {k}"),
    }
}

/// the schema of a closed model, for TLC and for the replay
pub fn schema(model: &str, dir: &str) -> DescriptorPool {
    std::fs::create_dir_all(dir).unwrap();
    if model == "universe" {
        std::fs::write(format!("{dir}/schemas.ndjson"), obj! {"files": crate::schema::files_json(&crate::worlds::universe())}.text() + "\n").unwrap();
        return DescriptorPool::new();
    }
    let files = match model {
        "small" => crate::worlds::small(),
        k => panic!("model {k}"),
    };
    let pool = DescriptorPool::decode(crate::schema::file_set_bytes(&files).as_slice()).unwrap();
    std::fs::write(format!("{dir}/schemas.ndjson"), obj! {"files": crate::schema::files_json(&files), "ew": crate::enum_witness(&pool)}.text() + "\n").unwrap();
    pool
}
/// menu and numbered histories printed by TLC
pub fn histories(file: &str) -> (Vec<JV>, Vec<(usize, Vec<JV>)>) {
    let v: JV = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    (list(&v["menu"]), list(&v["hists"]).iter().map(|h| (h[0].as_u64().unwrap() as usize, list(&h[1]))).collect())
}

/// one content: reach it, look at it in every way, and try every n-th operation from there
pub fn state(c: &mut Case, hist: &[JV], menu: &[JV], n: usize, i: usize) {
    let t = c.w.ty("s.N");
    c.new_msg(0, &t);
    for (k, o) in hist.iter().enumerate() {
        op(c, 0, o, i + k);
    }
    if c.regs[0].is_none() {
        return;
    }
    c.op_list(0);
    for (k, f) in Fd::all(&t).iter().enumerate() {
        let by = if matches!(f, Fd::X(_)) { "ext" } else { ["desc", "num", "name"][(i + k) % 3] };
        let nm = if by == "name" { t.get_field(f.number()).unwrap().name().to_string() } else { String::new() };
        c.get_with(0, f, by, f.number() as i64, nm);
    }
    if let Some(b) = c.enc(0) {
        c.dec(2, &t, &b, false);
        c.same(0, 2);
    }
    if let Some(s) = c.json(0) {
        c.unjson(3, &t, &s, false, true);
        c.jround(0, 3);
    }
    let mut o = crate::text::Opts::random(&mut c.g.r);
    o.skipunk = true;
    if let Some(s) = c.text_with(0, o) {
        c.untext(3, &t, &s);
        c.tround(0, 3);
    }
    for (k, o) in menu.iter().enumerate() {
        if (i + k) % n != 0 {
            continue;
        }
        c.copy(0, 1);
        op(c, 1, o, i + k);
        if c.regs[1].is_some() {
            c.op_list(1);
            c.enc(1);
        }
    }
}

/// one pool of the closed model of pools: reach it, look at it, and try every n-th batch on copies
pub fn pool_state(h: &mut crate::pool::Hist, hist: &[JV], menu: &[JV], n: usize, i: usize) {
    let batch = |b: &JV| -> Vec<usize> { list(b).iter().map(|x| x.as_u64().unwrap() as usize - 1).collect() };
    h.files = crate::worlds::universe();
    h.probes = crate::pool::Probes::new(&h.files);
    h.fresh(0);
    for b in hist {
        let how = h.how();
        h.add(0, &batch(b), how);
    }
    h.dump(0);
    h.hold(0, 0);
    for (k, b) in menu.iter().enumerate() {
        if (i + k) % n != 0 {
            continue;
        }
        h.clone_pool(1, 0);
        let how = h.how();
        let ok = h.add(1, &batch(b), how);
        h.dump(1);
        if !ok {
            // what a failure left behind shows in the next additions
            let how = h.how();
            let next = h.r.below(menu.len());
            h.add(1, &batch(&menu[next]), how);
            h.dump(1);
        }
    }
    h.dump(0);
    h.look_held(0);
}
