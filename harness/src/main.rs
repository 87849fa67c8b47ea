#![allow(dead_code)]
#[macro_use]
mod js;
mod cases;
mod gen;
mod glob;
mod ir;
mod json;
mod msg;
mod opt;
mod play;
mod pool;
mod poolsweep;
mod proto;
mod robust;
mod rng;
mod schema;
mod sweep;
mod text;
mod val;
mod wire;
mod worlds;

use js::J;
use msg::*;
use prost_reflect::DescriptorPool;
use rng::Rng;
use std::io::Write;

pub struct Out {
    cases: std::io::BufWriter<std::fs::File>,
    n: usize,
    events: usize,
    kinds: std::collections::BTreeMap<String, usize>,
}

impl Out {
    fn case(&mut self, sch: usize, ev: Vec<J>) {
        if ev.is_empty() {
            return;
        }
        self.n += 1;
        self.events += ev.len();
        for e in &ev {
            if let J::Obj(o) = e {
                let get = |k: &str| o.iter().find(|x| x.0 == k).and_then(|x| if let J::Str(s) = &x.1 { Some(s.as_str()) } else { None });
                let k = format!("{}.{}", get("o").unwrap_or(""), get("q").unwrap_or("done"));
                *self.kinds.entry(k).or_default() += 1;
            }
        }
        let j = obj! {"id": J::Int(self.n as i64), "sch": J::Int(sch as i64), "ev": J::Arr(ev)};
        writeln!(self.cases, "{}", j.text()).unwrap();
    }
}

/// For enums with several names per number: the name the library reports.
fn enum_witness(pool: &DescriptorPool) -> J {
    let mut v = vec![];
    for e in pool.all_enums() {
        let mut nums: Vec<i32> = e.values().map(|v| v.number()).collect();
        nums.dedup();
        for n in nums {
            if e.values().filter(|v| v.number() == n).count() > 1 {
                if let Some(x) = e.get_value(n) {
                    v.push(obj! {"e": J::s(e.full_name()), "n": J::b(&n.to_le_bytes()), "nm": J::s(x.name())});
                }
            }
        }
    }
    J::Arr(v)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args[1].as_str();
    // panics are data
    if std::env::var("VH_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let child = std::thread::Builder::new().stack_size(256 << 20);
    let args2 = args.clone();
    let cmd = cmd.to_string();
    child
        .spawn(move || match cmd.as_str() {
            "msg" => msg_main(&args2[2], args2[3].parse().unwrap(), args2[4].parse().unwrap(), &args2[5]),
            "pool" => pool_main(&args2[2], args2[3].parse().unwrap(), args2[4].parse().unwrap(), &args2[5]),
            "schema" => drop(play::schema(&args2[2], &args2[3])),
            "replay" => play_main(&args2[2], args2[3].parse().unwrap(), args2[4].parse().unwrap(), &args2[5]),
            "opt" => opt_main(args2[3].parse().unwrap(), args2[4].parse().unwrap(), &args2[5]),
            "rob" => rob_main(args2[3].parse().unwrap(), args2[4].parse().unwrap(), &args2[5]),
            "glob" => {
                std::fs::create_dir_all(&args2[5]).unwrap();
                glob::parent(args2[3].parse().unwrap(), args2[4].parse().unwrap(), &args2[5])
            }
            "glob-child" => glob::child(args2[3].parse().unwrap(), args2[4].parse().unwrap()),
            _ => panic!("usage"),
        })
        .unwrap()
        .join()
        .unwrap();
}

fn msg_main(profile: &str, seed: u64, ncases: usize, dir: &str) {
    std::fs::create_dir_all(dir).unwrap();
    let (profile, swept) = match profile.strip_suffix("+s") {
        Some(p) => (p, true),
        None => (profile, false),
    };
    let mut sch = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/schemas.ndjson")).unwrap());
    let mut out = Out { cases: std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap()), n: 0, events: 0, kinds: Default::default() };
    let mut ws = vec![];
    let mut crash = vec![];
    let cur = format!("{dir}/cur");
    let mut all = vec![worlds::kitchen()];
    for k in 0..6 {
        let mut g = gen::SGen::new(Rng::sub(seed ^ 0x5eed, k));
        g.safe = true;
        g.rich = true;
        let n = 1 + g.r.below(2);
        all.push(g.schema(n));
    }
    for (i, files) in all.iter().enumerate() {
        let r = guard(|| DescriptorPool::decode(schema::file_set_bytes(files).as_slice()));
        let pool = match r {
            Some(Ok(p)) => p,
            // whether a schema is to be refused is decided elsewhere
            Some(Err(_)) if i > 0 => continue,
            Some(Err(e)) => {
                crash.push(format!("valid schema refused: {e}"));
                continue;
            }
            None => {
                crash.push("panic while adding a valid schema".to_string());
                continue;
            }
        };
        if pool.all_messages().len() == 0 {
            continue;
        }
        writeln!(sch, "{}", obj! {"files": schema::files_json(files), "ew": guard(|| enum_witness(&pool)).unwrap_or(J::Arr(vec![]))}.text()).unwrap();
        ws.push(World::new(ws.len() + 1, pool));
    }
    for c in crash {
        out.case(1, vec![obj! {"o": J::s("crash"), "where": J::s(&c), "mt": J::s("")}]);
    }
    if !ws.is_empty() {
        for n in 0..ncases {
            let w = if n % 10 < 7 || ws.len() == 1 { &ws[0] } else { &ws[1 + n / 10 % (ws.len() - 1)] };
            let mut c = Case::new(w, val::Gen::new(Rng::sub(seed, n as u64)));
            std::fs::write(&cur, n.to_string()).unwrap();
            let r = guard(|| cases::run(profile, &mut c, n));
            if r.is_none() {
                c.ev.push(obj! {"o": J::s("crash"), "where": J::s("inspecting a message or descriptor"), "mt": J::s("")});
            }
            out.case(w.id, c.ev);
        }
        // every field of the fixed schemas against whole tables
        let first = &ws[0];
        let sweeps = if swept && first.id == 1 && first.pool.get_message_by_name("v.k3.Opt").is_some() { sweep::total(profile, first) } else { 0 };
        for n in 0..sweeps {
            let mut c = Case::new(first, val::Gen::new(Rng::sub(seed, (ncases + n) as u64)));
            std::fs::write(&cur, format!("sweep {n}")).unwrap();
            if guard(|| sweep::run(profile, &mut c, n)).is_none() {
                c.ev.push(obj! {"o": J::s("crash"), "where": J::s("sweeping the fields"), "mt": J::s("")});
            }
            out.case(first.id, c.ev);
        }
    }
    sch.flush().unwrap();
    out.cases.flush().unwrap();
    let kinds: Vec<String> = out.kinds.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect();
    println!("{{\"cases\":{},\"events\":{},\"schemas\":{},\"ev\":{{{}}}}}", out.n, out.events, ws.len(), kinds.join(","));
}

/// histories of a closed model (name:file), replayed: every n-th operation in every state
fn play_main(model: &str, seed: u64, n: usize, dir: &str) {
    std::fs::create_dir_all(dir).unwrap();
    let (model, file) = model.split_once(':').unwrap();
    let (menu, hists) = play::histories(file);
    if model == "universe" {
        return pool_cases(hists.len(), dir, |h, k| play::pool_state(h, &hists[k].1, &menu, n, hists[k].0 + (seed % n as u64) as usize), |k| Rng::sub(seed, hists[k].0 as u64));
    }
    let pool = play::schema(model, dir);
    let w = World::new(1, pool);
    let mut out = Out { cases: std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap()), n: 0, events: 0, kinds: Default::default() };
    let cur = format!("{dir}/cur");
    for (i, h) in &hists {
        let i = *i;
        let mut c = Case::new(&w, val::Gen::new(Rng::sub(seed, i as u64)));
        std::fs::write(&cur, i.to_string()).unwrap();
        if guard(|| play::state(&mut c, h, &menu, n, i + (seed % n as u64) as usize)).is_none() {
            c.ev.push(obj! {"o": J::s("crash"), "where": J::s("replaying a history"), "mt": J::s("")});
        }
        out.case(w.id, c.ev);
    }
    out.cases.flush().unwrap();
    let kinds: Vec<String> = out.kinds.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect();
    println!("{{\"cases\":{},\"events\":{},\"ev\":{{{}}}}}", out.n, out.events, kinds.join(","));
}

fn pool_main(profile: &str, seed: u64, ncases: usize, dir: &str) {
    let (profile, swept) = match profile.strip_suffix("+s") {
        Some(p) => (p, poolsweep::total()),
        None => (profile, 0),
    };
    pool_cases(ncases + swept, dir, |h, n| if n < ncases { pool::run(profile, h, n) } else { poolsweep::run(h, n - ncases, profile == "D06", profile == "D08") }, |n| Rng::sub(seed, n as u64))
}
fn pool_cases(ncases: usize, dir: &str, run: impl Fn(&mut pool::Hist, usize), rng: impl Fn(usize) -> Rng) {
    std::fs::create_dir_all(dir).unwrap();
    let mut out = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap());
    let cur = format!("{dir}/cur");
    let mut kinds: std::collections::BTreeMap<String, usize> = Default::default();
    let mut events = 0;
    for n in 0..ncases {
        let mut h = pool::Hist::new(rng(n));
        std::fs::write(&cur, n.to_string()).unwrap();
        if guard(|| run(&mut h, n)).is_none() {
            h.ev.push(obj! {"o": J::s("crash"), "p": J::Int(0)});
        }
        for e in &h.ev {
            if let J::Obj(o) = e {
                let get = |k: &str| o.iter().find(|x| x.0 == k).and_then(|x| if let J::Str(s) = &x.1 { Some(s.as_str()) } else { None });
                *kinds.entry(format!("{}.{}", get("o").unwrap_or(""), get("q").unwrap_or("done"))).or_default() += 1;
            }
        }
        let (j, k, tags) = h.finish(n + 1);
        events += k;
        for t in tags {
            *kinds.entry(format!("edit.{t}")).or_default() += 1;
        }
        writeln!(out, "{}", j.text()).unwrap();
    }
    out.flush().unwrap();
    let kinds: Vec<String> = kinds.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect();
    println!("{{\"cases\":{},\"events\":{},\"ev\":{{{}}}}}", ncases, events, kinds.join(","));
}

fn opt_main(seed: u64, ncases: usize, dir: &str) {
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(format!("{dir}/schemas.ndjson"), opt::full_descriptor().json().text() + "\n").unwrap();
    let mut out = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap());
    let cur = format!("{dir}/cur");
    let mut kinds: std::collections::BTreeMap<String, usize> = Default::default();
    let mut events = 0;
    for n in 0..ncases {
        let mut h = pool::Hist::new(Rng::sub(seed, n as u64));
        std::fs::write(&cur, n.to_string()).unwrap();
        let (fw, nw) = guard(|| opt::run(&mut h, n)).unwrap_or_else(|| {
            h.ev.push(obj! {"o": J::s("crash"), "p": J::Int(0)});
            (J::Arr(vec![]), J::Arr(vec![]))
        });
        for e in &h.ev {
            if let J::Obj(o) = e {
                let get = |k: &str| o.iter().find(|x| x.0 == k).and_then(|x| if let J::Str(s) = &x.1 { Some(s.as_str()) } else { None });
                *kinds.entry(format!("{}.{}", get("o").unwrap_or(""), get("q").unwrap_or("done"))).or_default() += 1;
            }
        }
        events += h.ev.len();
        let bytes = J::Arr(h.files.iter().map(|f| J::b(&f.bytes())).collect());
        let j = obj! {"id": J::Int(n as i64 + 1), "files": schema::files_json(&h.files), "bytes": bytes, "fw": fw, "nw": nw, "dumps": J::Arr(h.dumps), "ev": J::Arr(h.ev)};
        writeln!(out, "{}", j.text()).unwrap();
    }
    out.flush().unwrap();
    let kinds: Vec<String> = kinds.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect();
    println!("{{\"cases\":{},\"events\":{},\"ev\":{{{}}}}}", ncases, events, kinds.join(","));
}

fn rob_main(seed: u64, ncases: usize, dir: &str) {
    std::fs::create_dir_all(dir).unwrap();
    robust::note_panics();
    let mut out = Out { cases: std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap()), n: 0, events: 0, kinds: Default::default() };
    let cur = format!("{dir}/cur");
    for n in 0..ncases {
        let mut h = robust::Rob::new(Rng::sub(seed, n as u64));
        std::fs::write(&cur, n.to_string()).unwrap();
        if guard(|| robust::run(&mut h, n)).is_none() {
            h.ev.push(obj! {"o": J::s("crash"), "x": J::Int(0), "k": J::s("crash"), "q": J::s("panic"), "why": J::s("")});
        }
        out.case(0, h.ev);
    }
    out.cases.flush().unwrap();
    let kinds: Vec<String> = out.kinds.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect();
    println!("{{\"cases\":{},\"events\":{},\"ev\":{{{}}}}}", out.n, out.events, kinds.join(","));
}
