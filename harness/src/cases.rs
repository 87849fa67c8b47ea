//! Generation profiles: which histories are executed for which property.
use crate::{msg::*, rng::Rng, wire::*};
use prost::Message;
use prost_reflect::*;

/// kitchen types by weight for general use
pub fn pick_type(c: &mut Case) -> MessageDescriptor {
    const MAIN: &[&str] = &["v.k3.Scalars", "v.k3.Opt", "v.k3.Rep", "v.k3.Maps", "v.k3.One", "v.k3.Tree", "v.k2.Base", "v.k2.Base", "v.k2.Holder", "v.k3.One", "v.k2.Plain", "v.k2.Base.Grp", "v.kx.Sub", "v.k3.Names", "v.kw.Wk", "v.ver.New"];
    if c.w.id == 1 && c.g.r.pct(85) {
        let n = *c.g.r.pick(MAIN);
        c.w.ty(n)
    } else {
        c.any_type()
    }
}

fn nested(c: &mut Case, levels: usize) -> (MessageDescriptor, Vec<u8>) {
    // chains through singular, repeated, map, oneof and group fields, and unknown groups
    let kind = c.g.r.below(7);
    let mut b: Vec<u8> = vec![];
    let t = match kind {
        0..=3 => "v.k3.Tree",
        4 => "v.k2.Base",
        5 => "v.k3.Empty",
        _ => "v.k2.Base",
    };
    for _ in 0..levels {
        let mut o = vec![];
        match kind {
            0 => put_bytes(1, &b, &mut o),
            1 => {
                let n = *c.g.r.pick(&[1u32, 2, 6, 7]);
                put_bytes(n, &b, &mut o)
            }
            2 => {
                let mut e = vec![];
                put_str(1, "k", &mut e);
                put_bytes(2, &b, &mut e);
                put_bytes(3, &e, &mut o)
            }
            3 => put_bytes(2, &b, &mut o),
            4 => {
                // Grp group -> nested message
                let mut e = vec![];
                put_bytes(2, &b, &mut e);
                key(13, 3, &mut o);
                o.extend(e);
                key(13, 4, &mut o);
            }
            5 => {
                key(9, 3, &mut o);
                o.extend(&b);
                key(9, 4, &mut o);
            }
            _ => {
                // unknown groups inside a map entry of an extension holder
                key(77, 3, &mut o);
                o.extend(&b);
                key(77, 4, &mut o);
            }
        }
        b = o;
    }
    if kind == 6 {
        let mut e = vec![];
        put_str(1, "k", &mut e);
        e.extend(&b);
        let mut o = vec![];
        put_bytes(26, &e, &mut o);
        b = o;
    }
    (c.w.ty(t), b)
}

pub fn deep(c: &mut Case) {
    let l = *c.g.r.pick(&[1usize, 49, 50, 51, 97, 98, 99, 100, 101, 102, 103, 130]);
    let (t, b) = nested(c, l);
    c.dec(0, &t, &b, false);
}

pub fn run(profile: &str, c: &mut Case, n: usize) {
    let fixed = c.w.id == 1;
    match profile {
        "W01" => {
            c.g.clean = c.g.r.pct(50);
            c.g.unknown = 25;
            c.g.wkt_valid = 30;
            if fixed && n % 97 == 5 {
                // as deep as the decoder goes
                let l = *c.g.r.pick(&[90usize, 97, 98, 99, 100]);
                let (t, b) = nested(c, l);
                c.dec(0, &t, &b, false);
                if c.regs[0].is_some() {
                    if let Some(b) = c.enc(0) {
                        c.dec(1, &t, &b, false);
                    }
                }
                return;
            }
            let t = pick_type(c);
            if !c.load(0, &t) {
                return;
            }
            if let Some(b) = c.enc(0) {
                let cl = c.clean[0];
                c.dec(1, &t, &b, cl);
                c.eq(0, 1);
                c.enc(1);
            }
        }
        "W02" => {
            c.g.unknown = 10;
            c.g.wkt_valid = 30;
            let t = pick_type(c);
            c.new_msg(0, &t);
            for _ in 0..c.g.r.below(4) + 1 {
                c.op_set(0, 0);
            }
            c.enc(0);
            c.load(1, &t);
            if c.regs[1].is_some() {
                c.enc(1);
            }
        }
        "W03" => {
            if fixed && n % 40 == 7 {
                deep(c);
                return;
            }
            c.g.wire_bad = *c.g.r.pick(&[0, 0, 2, 6]);
            for x in 0..2 {
                let t = pick_type(c);
                let mut b = vec![];
                c.wire_msg(&t, 2, &mut b);
                if c.g.r.pct(25) {
                    c.mutate(&mut b);
                }
                c.dec(x, &t, &b, false);
                if c.regs[x].is_some() && c.g.r.pct(20) {
                    let mut b = vec![];
                    c.wire_msg(&t, 1, &mut b);
                    c.merge(x, &b);
                }
            }
        }
        "W04" => {
            c.g.unknown = 25;
            c.g.wkt_valid = 30;
            c.g.wire_bad = 0;
            let t = pick_type(c);
            let crafted = c.g.r.pct(30);
            let mut a = vec![];
            let mut b = vec![];
            if crafted {
                c.wire_msg(&t, 2, &mut a);
                c.wire_msg(&t, 2, &mut b);
            } else {
                let d = c.g.depth;
                if let Some((x, y)) = guard(|| (c.g.msg(&t, d).encode_to_vec(), c.g.msg(&t, d).encode_to_vec())) {
                    a = x;
                    b = y;
                }
            }
            c.dec(0, &t, &a, false);
            if c.regs[0].is_some() {
                c.merge(0, &b);
                let mut ab = a.clone();
                ab.extend(&b);
                c.dec(1, &t, &ab, false);
                c.ev.push(crate::obj! {"o": crate::js::J::s("same"), "x": crate::js::J::Int(0), "y": crate::js::J::Int(1)});
                if c.regs[1].is_some() && c.g.r.pct(30) {
                    c.merge(1, &b);
                    if c.regs[1].is_some() {
                        c.op(1, 0);
                    }
                }
            }
        }
        "W05" => {
            c.g.unknown = 60;
            c.g.wkt_valid = 20;
            c.g.wire_bad = 0;
            if fixed && c.g.r.pct(40) {
                let (newer, older) = *c.g.r.pick(&[("v.ver.New", "v.ver.Old"), ("v.ver.New", "v.ver.None"), ("v.k3.Rep", "v.k3.Empty"), ("v.k2.Base", "v.ver.None"), ("v.k3.Tree", "v.k3.Empty"), ("v.k2.Base", "v.k2.Plain"), ("v.ver.New", "v.k2.Plain")]);
                let (tn, to) = (c.w.ty(newer), c.w.ty(older));
                if !c.load(0, &tn) {
                    return;
                }
                if let Some(b) = c.enc(0) {
                    c.dec(1, &to, &b, false);
                    if c.regs[1].is_some() {
                        c.op_list(1);
                        if let Some(b) = c.enc(1) {
                            c.dec(2, &tn, &b, false);
                        }
                    }
                }
            } else {
                let t = pick_type(c);
                let mut b = vec![];
                for _ in 0..c.g.r.below(4) + 1 {
                    c.g.unknown_field(&t, 3, &mut b);
                    if c.g.r.pct(30) {
                        c.wire_msg(&t, 1, &mut b);
                    }
                }
                c.dec(0, &t, &b, false);
                if c.regs[0].is_some() {
                    c.op_list(0);
                    c.enc(0);
                    match c.g.r.below(4) {
                        0 => {
                            c.op_drain(0, &["u"]);
                            c.enc(0);
                            c.op_list(0);
                            let mut b = vec![];
                            c.g.unknown_field(&t, 2, &mut b);
                            c.merge(0, &b);
                            if c.regs[0].is_some() {
                                c.op_list(0);
                            }
                        }
                        1 => {
                            c.op(0, 5);
                            c.op(0, 5);
                            c.op_list(0);
                            c.enc(0);
                        }
                        2 => {
                            let mut b = vec![];
                            c.g.unknown_field(&t, 3, &mut b);
                            c.merge(0, &b);
                            if c.regs[0].is_some() {
                                c.enc(0);
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        "M01" | "M02" | "M03" | "M04" => {
            c.g.wkt_valid = if profile == "M03" { 85 } else { 30 };
            c.g.unknown = 10;
            c.g.depth = 2;
            let t = if profile == "M02" {
                let t = pick_type(c);
                if fixed && c.g.r.pct(70) {
                    let n = *c.g.r.pick(&["v.k3.One", "v.k2.Base", "v.k3.Tree", "v.k3.One", "google.protobuf.Value", "v.k3.Opt", "v.kw.Wk", "v.ver.New"]);
                    c.w.ty(n)
                } else {
                    let ts: Vec<_> = c.w.types.iter().filter(|t| t.oneofs().len() > 0).cloned().collect();
                    if ts.is_empty() {
                        t
                    } else {
                        c.g.r.pick(&ts).clone()
                    }
                }
            } else {
                pick_type(c)
            };
            if c.g.r.pct(50) {
                c.new_msg(0, &t);
            } else if !c.load(0, &t) {
                return;
            }
            let steps = c.g.r.below(10) + 4;
            for _ in 0..steps {
                match profile {
                    "M04" => match c.g.r.below(10) {
                        0..=4 => c.op_set(0, 65),
                        5..=7 => c.op_valq(&t),
                        8 => {
                            let t2 = c.any_type();
                            c.op_valq(&t2);
                            c.op_acc(&t2)
                        }
                        _ => c.op(0, 50),
                    },
                    "M02" => match c.g.r.below(10) {
                        0..=5 => c.op(0, 10),
                        6 => {
                            let mut b = vec![];
                            c.g.wire_bad = 0;
                            c.wire_msg(&t, 1, &mut b);
                            c.merge(0, &b);
                        }
                        7 => c.op_mut(0),
                        8 => c.op_clear(0),
                        // what is written last in a text counts, whatever was there
                        _ => match c.g.r.below(4) {
                            0 | 1 => {
                                let s = c.gen_text(&t);
                                c.mergetext(0, &s)
                            }
                            2 => {
                                let s = c.gen_doc(&t, 3);
                                c.unjson(0, &t, &s, false, false);
                            }
                            _ => c.op_set(0, 0),
                        },
                    },
                    "M03" => match c.g.r.below(10) {
                        0..=2 => c.op_set(0, 0),
                        3 | 4 => c.op_mut(0),
                        5 | 6 => c.op_get(0),
                        7 => c.op_list(0),
                        8 => c.op_clear(0),
                        _ => {
                            c.enc(0);
                        }
                    },
                    _ => c.op(0, 10),
                }
                if c.regs[0].is_none() {
                    return;
                }
                if profile == "M01" && c.g.r.pct(6) {
                    c.copy(0, 1);
                    c.op(1, 10);
                    c.op_list(0);
                }
            }
            c.op_list(0);
            if profile == "M03" {
                // what is set is what is shown
                c.enc(0);
                c.json_with(0, (true, false, false, true));
                c.text_with(0, crate::text::Opts { pretty: false, ..crate::text::Opts::DEFAULT });
            }
        }
        "M05" => {
            c.g.ext = 90;
            c.g.wkt_valid = 80;
            c.g.depth = 2;
            let t = if fixed {
                let n = *c.g.r.pick(&["v.k2.Base", "v.k2.Base", "v.k2.Base", "v.k2.Holder", "v.k2.Plain", "v.k2.Base.Grp"]);
                c.w.ty(n)
            } else {
                let ts: Vec<_> = c.w.types.iter().filter(|t| t.extensions().len() > 0).cloned().collect();
                if ts.is_empty() {
                    c.any_type()
                } else {
                    c.g.r.pick(&ts).clone()
                }
            };
            for _ in 0..3 {
                c.op_look(&t);
            }
            let t2 = c.any_type();
            c.op_look(&t2);
            if c.g.r.pct(50) {
                c.new_msg(0, &t);
            } else if !c.load(0, &t) {
                return;
            }
            for _ in 0..c.g.r.below(6) + 2 {
                c.op(0, 5);
                if c.regs[0].is_none() {
                    return;
                }
            }
            c.op_list(0);
            if let Some(b) = c.enc(0) {
                c.dec(1, &t, &b, false);
                let mut b2 = vec![];
                c.g.wire_bad = 0;
                c.wire_msg(&t, 1, &mut b2);
                if c.regs[1].is_some() {
                    c.merge(1, &b2);
                }
                if c.regs[1].is_some() {
                    c.op_list(1);
                    c.enc(1);
                }
            }
            if let Some(s) = c.json(0) {
                c.unjson(2, &t, &s, false, true);
                c.jround(0, 2);
            }
            let mut o = crate::text::Opts::random(&mut c.g.r);
            o.skipunk = true;
            if let Some(s) = c.text_with(0, o) {
                c.untext(3, &t, &s);
                c.tround(0, 3);
            }
        }
        "R01" => {
            if fixed && n % 250 == 9 {
                // far deeper than any decoder follows, on a stack of the usual size
                let levels = *c.g.r.pick(&[150usize, 1000, 10000, 20000]);
                let (t, b) = nested(c, levels);
                let q = std::thread::Builder::new().stack_size(2 << 20).spawn(move || guard(|| DynamicMessage::decode(t, b.as_slice()).is_ok())).unwrap().join();
                let q = match q {
                    Ok(Some(true)) => "ok",
                    Ok(Some(false)) => "err",
                    _ => "panic",
                };
                c.ev.push(crate::obj! {"o": crate::js::J::s("deep"), "mt": crate::js::J::s(""), "levels": crate::js::J::Int(levels as i64), "q": crate::js::J::s(q)});
                return;
            }
            match c.g.r.below(10) {
                0..=2 => {
                    c.g.wire_bad = *c.g.r.pick(&[0, 5, 20]);
                    let t = pick_type(c);
                    let mut b = vec![];
                    c.wire_msg(&t, 2, &mut b);
                    for _ in 0..c.g.r.below(6) {
                        c.mutate(&mut b);
                    }
                    if c.g.r.pct(10) {
                        b = (0..c.g.r.below(20)).map(|_| c.g.r.next() as u8).collect();
                    }
                    c.dec(0, &t, &b, false);
                    if c.regs[0].is_some() && c.g.r.pct(40) {
                        let mut b = vec![];
                        c.wire_msg(&t, 2, &mut b);
                        c.mutate(&mut b);
                        c.merge(0, &b);
                    }
                }
                3 | 4 => crate::json::run("J03", c),
                5 | 6 => crate::json::run("J04", c),
                _ => crate::text::run("T02", c),
            }
            for x in 0..2 {
                c.insp(x);
            }
        }
        p if p.starts_with('J') => crate::json::run(profile, c),
        p if p.starts_with('T') => crate::text::run(profile, c),
        _ => panic!("unknown profile {profile}"),
    }
}
