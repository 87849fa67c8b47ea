//! Histories of operations on dynamic messages: executes them on the real code and records what happened.
use crate::{js::J, obj, rng::Rng, val::*, wire::*};
use prost::Message;
use prost_reflect::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub struct World {
    pub id: usize,
    pub pool: DescriptorPool,
    pub types: Vec<MessageDescriptor>,
}

impl World {
    pub fn new(id: usize, pool: DescriptorPool) -> World {
        let types = pool.all_messages().filter(|m| !m.is_map_entry()).collect();
        World { id, pool, types }
    }
    pub fn ty(&self, n: &str) -> MessageDescriptor {
        self.pool.get_message_by_name(n).unwrap_or_else(|| panic!("type {n}"))
    }
}

pub fn panicked() -> J {
    obj! {"t": J::s("panic")}
}

pub const NREG: usize = 4;

/// One case: registers holding messages, and the recorded events.
pub struct Case<'a> {
    pub w: &'a World,
    pub g: Gen,
    pub regs: Vec<Option<DynamicMessage>>,
    pub clean: Vec<bool>,
    pub ev: Vec<J>,
}

fn set_err<T>(r: Option<Result<T, SetFieldError>>) -> &'static str {
    match r {
        None => "panic",
        Some(Ok(_)) => "ok",
        Some(Err(SetFieldError::NotFound)) => "notfound",
        Some(Err(SetFieldError::InvalidType { .. })) => "invalid",
    }
}

const BAD_NAMES: &[&str] = &["", "nope", "I32", "fooBar", "i3", "key", "subx", "[v.k2.xi]", "v.k2.xi"];

impl<'a> Case<'a> {
    pub fn new(w: &'a World, g: Gen) -> Self {
        Case { w, g, regs: vec![None; NREG], clean: vec![false; NREG], ev: vec![] }
    }
    fn r(&mut self) -> &mut Rng {
        &mut self.g.r
    }
    pub fn any_type(&mut self) -> MessageDescriptor {
        let ts = &self.w.types;
        self.g.r.pick(ts).clone()
    }
    pub fn d(&self, x: usize) -> J {
        match &self.regs[x] {
            Some(m) => match guard(|| dump_msg(m, true)) {
                Some(d) => d.shallow(),
                None => panicked(),
            },
            None => obj! {"t": J::s("none")},
        }
    }
    pub fn m(&mut self, x: usize) -> &mut DynamicMessage {
        self.regs[x].as_mut().unwrap()
    }
    pub fn new_msg(&mut self, x: usize, t: &MessageDescriptor) {
        self.regs[x] = Some(DynamicMessage::new(t.clone()));
        self.clean[x] = true;
        let d = self.d(x);
        self.ev.push(obj! {"o": J::s("new"), "x": J::Int(x as i64), "mt": J::s(t.full_name()), "d": d});
    }
    pub fn put(&mut self, x: usize, m: DynamicMessage) {
        self.regs[x] = Some(m);
        self.clean[x] = self.g.clean;
        let d = self.d(x);
        self.ev.push(obj! {"o": J::s("load"), "x": J::Int(x as i64), "d": d});
    }
    pub fn load(&mut self, x: usize, t: &MessageDescriptor) -> bool {
        let depth = self.g.depth;
        let g = &mut self.g;
        match guard(|| g.msg(t, depth)) {
            Some(m) => {
                self.put(x, m);
                true
            }
            None => {
                self.regs[x] = None;
                self.ev.push(obj! {"o": J::s("crash"), "where": J::s("building a random message"), "mt": J::s(t.full_name())});
                false
            }
        }
    }
    pub fn enc(&mut self, x: usize) -> Option<Vec<u8>> {
        let m = self.regs[x].clone()?;
        let mo = dump_msg(&m, false).shallow();
        let r = guard(|| (m.encode_to_vec(), m.encoded_len()));
        // length-delimited form must be the same bytes after their length
        let ld = guard(|| m.encode_length_delimited_to_vec()).unwrap_or_default();
        let (q, b, len) = match r {
            Some((b, l)) => ("ok", b, l),
            None => ("panic", vec![], 0),
        };
        let ldok = {
            let mut v = vec![];
            varint(b.len() as u64, &mut v);
            v.extend_from_slice(&b);
            v == ld
        };
        self.ev.push(obj! {"o": J::s("enc"), "x": J::Int(x as i64), "mo": mo, "q": J::s(q), "b": J::b(&b), "len": J::Int(len as i64), "ld": J::Bool(ldok)});
        if q == "ok" {
            Some(b)
        } else {
            None
        }
    }
    pub fn dec(&mut self, x: usize, t: &MessageDescriptor, b: &[u8], clean: bool) {
        let r = guard(|| DynamicMessage::decode(t.clone(), b));
        let q = match r {
            None => "panic",
            Some(Ok(m)) => {
                self.regs[x] = Some(m);
                "ok"
            }
            Some(Err(_)) => "err",
        };
        if q != "ok" {
            self.regs[x] = None;
        }
        self.clean[x] = clean && q == "ok";
        let d = self.d(x);
        self.ev.push(obj! {"o": J::s("dec"), "x": J::Int(x as i64), "mt": J::s(t.full_name()), "b": J::b(b), "q": J::s(q), "d": d});
    }
    pub fn merge(&mut self, x: usize, b: &[u8]) {
        let mut m = match self.regs[x].take() {
            Some(m) => m,
            None => return,
        };
        let r = guard(|| {
            let r = m.merge(b);
            (m, r)
        });
        let q = match r {
            None => "panic",
            Some((m, r)) => {
                self.regs[x] = Some(m);
                if r.is_ok() {
                    "ok"
                } else {
                    "err"
                }
            }
        };
        self.clean[x] = false;
        let d = self.d(x);
        self.ev.push(obj! {"o": J::s("merge"), "x": J::Int(x as i64), "b": J::b(b), "q": J::s(q), "d": d});
        if q == "err" {
            // the content after a failed merge is unspecified
            self.regs[x] = None;
        }
    }
    /// everything else that can be asked of a message
    pub fn insp(&mut self, x: usize) {
        if let Some(m) = self.regs[x].clone() {
            let mut r = Rng(self.g.r.next());
            for (k, q, _) in crate::robust::inspect(&m, &mut r) {
                self.ev.push(obj! {"o": J::s("insp"), "x": J::Int(x as i64), "k": J::s(k), "q": J::s(q)});
            }
        }
    }
    pub fn copy(&mut self, x: usize, y: usize) {
        self.regs[y] = self.regs[x].clone();
        self.clean[y] = self.clean[x];
        let d = self.d(y);
        self.ev.push(obj! {"o": J::s("copy"), "x": J::Int(x as i64), "y": J::Int(y as i64), "d": d});
    }
    pub fn eq(&mut self, x: usize, y: usize) {
        if let (Some(a), Some(b)) = (&self.regs[x], &self.regs[y]) {
            if self.clean[x] && self.clean[y] {
                let q = a == b;
                self.ev.push(obj! {"o": J::s("eq"), "x": J::Int(x as i64), "y": J::Int(y as i64), "q": J::Bool(q)});
            }
        }
    }

    /// same observable content
    pub fn same(&mut self, x: usize, y: usize) {
        self.ev.push(obj! {"o": J::s("same"), "x": J::Int(x as i64), "y": J::Int(y as i64)});
    }

    // ---- accessors ----
    fn fd(&mut self, x: usize) -> Option<Fd> {
        let desc = self.m(x).descriptor();
        let fs: Vec<_> = desc.fields().collect();
        let xs: Vec<_> = desc.extensions().collect();
        let useext = !xs.is_empty() && (fs.is_empty() || {
            let e = self.g.ext;
            self.r().pct(e)
        });
        if useext {
            Some(Fd::X(self.r().pick(&xs).clone()))
        } else if fs.is_empty() {
            None
        } else if self.r().pct(60) {
            // prefer fields already touched or in oneofs
            let m = self.m(x).clone();
            let hot: Vec<_> = fs.iter().filter(|f| m.has_field(f) || f.containing_oneof().is_some_and(|o| o.fields().len() > 1)).cloned().collect();
            if hot.is_empty() {
                Some(Fd::F(self.r().pick(&fs).clone()))
            } else {
                Some(Fd::F(self.r().pick(&hot).clone()))
            }
        } else {
            Some(Fd::F(self.r().pick(&fs).clone()))
        }
    }
    /// How a field is addressed: descriptor, number or name; sometimes an unknown number or name.
    fn addr(&mut self, x: usize, f: &Fd) -> (&'static str, i64, String) {
        let desc = self.m(x).descriptor();
        match f {
            Fd::X(e) => ("ext", e.number() as i64, String::new()),
            Fd::F(f) => match self.r().below(10) {
                0..=3 => ("desc", f.number() as i64, String::new()),
                4..=6 => ("num", f.number() as i64, String::new()),
                7 | 8 => ("name", f.number() as i64, f.name().to_string()),
                _ => {
                    if self.r().pct(50) {
                        let n = *self.r().pick(&[0u32, 1, 2, 3, 99, 100, 150, 19000, 536870911, 536870912, u32::MAX >> 1]);
                        ("num", n as i64, String::new())
                    } else {
                        let n = if self.r().pct(50) { (*self.r().pick(BAD_NAMES)).to_string() } else { f.json_name().to_string() };
                        let num = desc.get_field_by_name(&n).map(|f| f.number() as i64).unwrap_or(0);
                        ("name", num, n)
                    }
                }
            },
        }
    }
    /// the field actually addressed
    fn target(&mut self, x: usize, f: Fd, by: &str, n: i64, nm: &str) -> Fd {
        let desc = self.m(x).descriptor();
        let t = match by {
            "num" => desc.get_field(n as u32),
            "name" => desc.get_field_by_name(nm),
            _ => None,
        };
        t.map(Fd::F).unwrap_or(f)
    }
    fn wrong_value(&mut self, f: &Fd) -> Value {
        let other = {
            let t = self.any_type();
            let fs = Fd::all(&t);
            fs
        };
        match self.r().below(6) {
            0 => {
                // list with one bad element
                let k = f.kind();
                let mut v: Vec<Value> = (0..2).map(|_| self.g.kind_value(&k, 1)).collect();
                let i = self.r().below(3);
                let bad = self.other_scalar(&k);
                v.insert(i.min(v.len()), bad);
                Value::List(v)
            }
            1 => {
                let k = f.kind();
                Value::List(vec![self.g.kind_value(&k, 1)])
            }
            2 if f.is_map() => {
                let k = f.kind();
                let e = k.as_message().unwrap();
                let (kk, vk) = (e.map_entry_key_field().kind(), e.map_entry_value_field().kind());
                let mut m = std::collections::HashMap::new();
                m.insert(self.g.map_key(&kk), self.g.kind_value(&vk, 1));
                match self.r().below(3) {
                    0 => {
                        m.insert(self.g.map_key(&kk), self.other_scalar(&vk));
                    }
                    1 => {
                        let wk = self.other_scalar(&kk);
                        if let Some(wk) = wk.into_map_key() {
                            m.insert(wk, self.g.kind_value(&vk, 1));
                        }
                    }
                    _ => {
                        m.insert(self.g.map_key(&kk), Value::List(vec![]));
                    }
                }
                Value::Map(m)
            }
            3 => {
                let k = f.kind();
                if f.is_map() {
                    Value::Message(DynamicMessage::new(k.as_message().unwrap().clone()))
                } else {
                    let k2 = k.clone();
                    if k2.as_message().is_some() && !f.is_list() {
                        self.other_scalar(&k)
                    } else {
                        self.g.kind_value(&k, 1)
                    }
                }
            }
            4 => Value::Map(Default::default()),
            _ => {
                for _ in 0..20 {
                    if other.is_empty() {
                        break;
                    }
                    let o = self.r().pick(&other).clone();
                    if o.kind().as_message().is_none() {
                        return self.g.value(&o, 1);
                    }
                }
                Value::List(vec![])
            }
        }
    }
    fn other_scalar(&mut self, k: &Kind) -> Value {
        let all = [Value::Bool(true), Value::I32(1), Value::I64(1), Value::U32(1), Value::U64(1), Value::F32(1.0), Value::F64(1.0), Value::String("a".into()), Value::Bytes(vec![1].into()), Value::EnumNumber(1), Value::List(vec![])];
        let c: Vec<_> = all.iter().filter(|v| match (v, k) {
            (Value::Bool(_), Kind::Bool) => false,
            (Value::I32(_), Kind::Int32 | Kind::Sint32 | Kind::Sfixed32) => false,
            (Value::I64(_), Kind::Int64 | Kind::Sint64 | Kind::Sfixed64) => false,
            (Value::U32(_), Kind::Uint32 | Kind::Fixed32) => false,
            (Value::U64(_), Kind::Uint64 | Kind::Fixed64) => false,
            (Value::F32(_), Kind::Float) | (Value::F64(_), Kind::Double) | (Value::String(_), Kind::String) | (Value::Bytes(_), Kind::Bytes) | (Value::EnumNumber(_), Kind::Enum(_)) => false,
            _ => true,
        }).cloned().collect();
        self.r().pick(&c).clone()
    }
    pub fn op_set(&mut self, x: usize, bad: u64) {
        let f = match self.fd(x) {
            Some(f) => f,
            None => return,
        };
        let (by, n, nm) = self.addr(x, &f);
        let f = self.target(x, f, by, n, &nm);
        let v = if self.r().pct(bad) { self.wrong_value(&f) } else { self.g.value(&f, 2) };
        self.do_set(x, &f, by, n, nm, v);
    }
    pub fn do_set(&mut self, x: usize, f: &Fd, by: &'static str, n: i64, nm: String, v: Value) {
        let tr = by != "ext" && self.r().pct(60);
        self.set_with(x, f, by, n, nm, v, tr)
    }
    pub fn set_with(&mut self, x: usize, f: &Fd, by: &'static str, n: i64, nm: String, v: Value, tr: bool) {
        // setting an extension is unchecked: only correct values
        let v = match f {
            Fd::X(e) if by == "ext" && !valid_shape(f, &v) => Value::default_value_for_extension(e),
            _ => v,
        };
        let vj = dump_value(&v, true);
        let m = self.regs[x].as_mut().unwrap();
        let q = match (by, f) {
            ("ext", Fd::X(e)) => set_err(guard(|| Ok(m.set_extension(e, v)))),
            ("desc", Fd::F(f)) => {
                if tr {
                    set_err(guard(|| m.try_set_field(f, v)))
                } else {
                    set_err(guard(|| Ok(m.set_field(f, v))))
                }
            }
            ("num", _) => {
                if tr {
                    set_err(guard(|| m.try_set_field_by_number(n as u32, v)))
                } else {
                    set_err(guard(|| Ok(m.set_field_by_number(n as u32, v))))
                }
            }
            _ => {
                if tr {
                    set_err(guard(|| m.try_set_field_by_name(&nm, v)))
                } else {
                    set_err(guard(|| Ok(m.set_field_by_name(&nm, v))))
                }
            }
        };
        self.clean[x] = false;
        let d = self.d(x);
        self.ev.push(obj! {"o": J::s("set"), "x": J::Int(x as i64), "try": J::Bool(tr), "by": J::s(by), "n": J::Int(n), "nm": J::s(&nm), "v": vj, "q": J::s(q), "d": d});
    }
    pub fn op_get(&mut self, x: usize) {
        let f = match self.fd(x) {
            Some(f) => f,
            None => return,
        };
        let (by, n, nm) = self.addr(x, &f);
        self.get_with(x, &f, by, n, nm)
    }
    pub fn get_with(&mut self, x: usize, f: &Fd, by: &'static str, n: i64, nm: String) {
        let m = self.regs[x].as_ref().unwrap();
        let r = guard(|| match (by, f) {
            ("ext", Fd::X(e)) => (Some(dump_value(&m.get_extension(e), true)), m.has_extension(e)),
            ("desc", Fd::F(f)) => (Some(dump_value(&m.get_field(f), true)), m.has_field(f)),
            ("num", _) => (m.get_field_by_number(n as u32).map(|v| dump_value(&v, true)), m.has_field_by_number(n as u32)),
            _ => (m.get_field_by_name(&nm).map(|v| dump_value(&v, true)), m.has_field_by_name(&nm)),
        });
        let d = self.d(x);
        let (q, has) = r.unwrap_or((Some(panicked()), false));
        self.ev.push(obj! {"o": J::s("get"), "x": J::Int(x as i64), "by": J::s(by), "n": J::Int(n), "nm": J::s(&nm), "q": J::opt(q), "has": J::Bool(has), "d": d});
    }
    pub fn op_clear(&mut self, x: usize) {
        let f = match self.fd(x) {
            Some(f) => f,
            None => return,
        };
        let (by, n, nm) = self.addr(x, &f);
        let take = self.r().pct(50);
        self.clear_with(x, &f, by, n, nm, take)
    }
    pub fn clear_with(&mut self, x: usize, f: &Fd, by: &'static str, n: i64, nm: String, take: bool) {
        let m = self.regs[x].as_mut().unwrap();
        let r = guard(|| match (by, f, take) {
            ("ext", Fd::X(e), false) => {
                m.clear_extension(e);
                None
            }
            ("desc", Fd::F(f), false) => {
                m.clear_field(f);
                None
            }
            ("num", _, false) => {
                m.clear_field_by_number(n as u32);
                None
            }
            (_, _, false) => {
                m.clear_field_by_name(&nm);
                None
            }
            ("ext", Fd::X(e), true) => m.take_extension(e),
            ("desc", Fd::F(f), true) => m.take_field(f),
            ("num", _, true) => m.take_field_by_number(n as u32),
            (_, _, true) => m.take_field_by_name(&nm),
        });
        let q = match r {
            None => J::Arr(vec![panicked()]),
            Some(v) => J::opt(v.map(|v| dump_value(&v, true))),
        };
        let d = self.d(x);
        self.ev.push(obj! {"o": J::s(if take {"take"} else {"clear"}), "x": J::Int(x as i64), "by": J::s(by), "n": J::Int(n), "nm": J::s(&nm), "q": q, "d": d});
    }
    pub fn op_mut(&mut self, x: usize) {
        let f = match self.fd(x) {
            Some(f) => f,
            None => return,
        };
        let (by, n, nm) = self.addr(x, &f);
        let f = self.target(x, f, by, n, &nm);
        let kind = f.kind();
        let mut gen = self.g.clone();
        self.r().next();
        let m = self.regs[x].as_mut().unwrap();
        let mut act = ("none", vec![]);
        let r = guard(|| {
            let slot = match (by, &f) {
                ("ext", Fd::X(e)) => Some(m.get_extension_mut(e)),
                ("desc", Fd::F(f)) => Some(m.get_field_mut(f)),
                ("num", _) => m.get_field_by_number_mut(n as u32),
                _ => m.get_field_by_name_mut(&nm),
            };
            let slot = match slot {
                Some(s) => s,
                None => return false,
            };
            if (by == "num" || by == "name") && !valid_shape(&f, slot) {
                return true; // a different field than f: just touch it
            }
            match gen.r.below(4) {
                0 => {}
                1 => {
                    let v = gen.value(&f, 2);
                    act = ("assign", vec![dump_value(&v, true)]);
                    *slot = v;
                }
                _ => match slot {
                    Value::List(l) => {
                        if !l.is_empty() && gen.r.pct(30) {
                            let i = gen.r.below(l.len());
                            act = ("rem", vec![J::Int(i as i64 + 1)]);
                            l.remove(i);
                        } else {
                            let v = gen.kind_value(&kind, 1);
                            act = ("push", vec![dump_value(&v, true)]);
                            l.push(v);
                        }
                    }
                    Value::Map(mm) => {
                        let e = kind.as_message().unwrap();
                        let (kk, vk) = (e.map_entry_key_field().kind(), e.map_entry_value_field().kind());
                        if !mm.is_empty() && gen.r.pct(30) {
                            let mut ks: Vec<_> = mm.keys().cloned().collect();
                            ks.sort_by_key(key_bytes);
                            let k = gen.r.pick(&ks).clone();
                            act = ("del", vec![dump_value(&k.clone().into(), true)]);
                            mm.remove(&k);
                        } else {
                            let k = gen.map_key(&kk);
                            let v = gen.kind_value(&vk, 1);
                            act = ("ins", vec![dump_value(&k.clone().into(), true), dump_value(&v, true)]);
                            mm.insert(k, v);
                        }
                    }
                    Value::Message(sub) => {
                        let fs = Fd::all(&sub.descriptor());
                        if !fs.is_empty() {
                            let sf = gen.r.pick(&fs).clone();
                            if gen.r.pct(25) {
                                act = ("subclear", vec![J::Int(sf.number() as i64)]);
                                match &sf {
                                    Fd::F(f) => sub.clear_field(f),
                                    Fd::X(f) => sub.clear_extension(f),
                                }
                            } else {
                                let v = gen.value(&sf, 1);
                                act = ("sub", vec![J::Int(sf.number() as i64), dump_value(&v, true)]);
                                Gen::set(sub, &sf, v);
                            }
                        }
                    }
                    slot => {
                        let v = gen.value(&f, 1);
                        act = ("assign", vec![dump_value(&v, true)]);
                        *slot = v;
                    }
                },
            }
            true
        });
        let q = match r {
            None => "panic",
            Some(true) => "ok",
            Some(false) => "notfound",
        };
        let d = self.d(x);
        self.clean[x] = false;
        self.ev.push(obj! {"o": J::s("mut"), "x": J::Int(x as i64), "by": J::s(by), "n": J::Int(n), "nm": J::s(&nm), "act": J::s(act.0), "a": J::Arr(act.1), "q": J::s(q), "d": d});
    }
    pub fn op_list(&mut self, x: usize) {
        let m = self.regs[x].as_ref().unwrap();
        let r = guard(|| {
            let f: Vec<J> = m.fields().map(|(f, v)| J::Arr(vec![J::Int(f.number() as i64), dump_value(v, true)])).collect();
            let e: Vec<J> = m.extensions().map(|(f, v)| J::Arr(vec![J::Int(f.number() as i64), dump_value(v, true)])).collect();
            let u: Vec<J> = m.unknown_fields().map(dump_unknown).collect();
            (f, e, u)
        });
        let (f, e, u) = r.unwrap_or((vec![J::Arr(vec![J::Int(-1), panicked()])], vec![], vec![]));
        self.ev.push(obj! {"o": J::s("list"), "x": J::Int(x as i64), "f": J::Arr(f), "e": J::Arr(e), "u": J::Arr(u)});
    }
    /// assignments through the mutable iterators
    pub fn op_itermut(&mut self, x: usize) {
        let ext = self.r().pct(40);
        let mut gen = self.g.clone();
        self.r().next();
        let m = self.regs[x].as_mut().unwrap();
        let r = guard(|| {
            let mut ns = vec![];
            let mut asg = vec![];
            if ext {
                for (f, v) in m.extensions_mut() {
                    ns.push(J::Int(f.number() as i64));
                    if gen.r.pct(40) {
                        let nv = gen.value(&Fd::X(f.clone()), 1);
                        asg.push(J::Arr(vec![J::Int(f.number() as i64), dump_value(&nv, true)]));
                        *v = nv;
                    }
                }
            } else {
                for (f, v) in m.fields_mut() {
                    ns.push(J::Int(f.number() as i64));
                    if gen.r.pct(40) {
                        let nv = gen.value(&Fd::F(f.clone()), 1);
                        asg.push(J::Arr(vec![J::Int(f.number() as i64), dump_value(&nv, true)]));
                        *v = nv;
                    }
                }
            }
            (ns, asg)
        });
        let (ns, asg) = r.unwrap_or((vec![J::Int(-1)], vec![]));
        let d = self.d(x);
        self.clean[x] = false;
        self.ev.push(obj! {"o": J::s("itermut"), "x": J::Int(x as i64), "ext": J::Bool(ext), "ns": J::Arr(ns), "a": J::Arr(asg), "d": d});
    }
    pub fn op_drain(&mut self, x: usize, kinds: &[&'static str]) {
        let kind = *self.r().pick(kinds);
        let k = *self.r().pick(&[0usize, 1, 1, 2, 3, 100]);
        self.drain_with(x, kind, k)
    }
    pub fn drain_with(&mut self, x: usize, kind: &'static str, k: usize) {
        let m = self.regs[x].as_mut().unwrap();
        let r = guard(|| match kind {
            "f" => m.take_fields().take(k).map(|(f, v)| J::Arr(vec![J::Int(f.number() as i64), dump_value(&v, true)])).collect::<Vec<_>>(),
            "e" => m.take_extensions().take(k).map(|(f, v)| J::Arr(vec![J::Int(f.number() as i64), dump_value(&v, true)])).collect(),
            _ => {
                // take_unknown_fields drains one number at a time; consuming part of a number's fields
                // leaves the others unspecified, so it is drained completely or not at all
                let k = if k < 2 { 0 } else { usize::MAX };
                m.take_unknown_fields().take(k).map(|u| dump_unknown(&u)).collect()
            }
        });
        let d = self.d(x);
        self.clean[x] = false;
        let k = if kind == "u" && k >= 2 { 1000 } else if kind == "u" { 0 } else { k };
        self.ev.push(obj! {"o": J::s("drain"), "x": J::Int(x as i64), "kind": J::s(kind), "k": J::Int(k as i64), "q": J::Arr(r.unwrap_or(vec![J::Arr(vec![J::Int(-1), panicked()])])), "d": d});
    }
    pub fn op_clearall(&mut self, x: usize) {
        let m = self.regs[x].as_mut().unwrap();
        let r = guard(|| m.clear());
        let d = self.d(x);
        self.clean[x] = true;
        self.ev.push(obj! {"o": J::s("clearall"), "x": J::Int(x as i64), "q": J::s(if r.is_some() {"ok"} else {"panic"}), "d": d});
    }
    /// validity queries
    pub fn op_valq(&mut self, t: &MessageDescriptor) {
        let fs = Fd::all(t);
        if fs.is_empty() {
            return;
        }
        let f = self.r().pick(&fs).clone();
        let v = if self.r().pct(65) { self.wrong_value(&f) } else { self.g.value(&f, 2) };
        self.valq_with(t, &f, v)
    }
    pub fn valq_with(&mut self, t: &MessageDescriptor, f: &Fd, v: Value) {
        let k = f.kind();
        let r = guard(|| match f {
            Fd::F(f) => (v.is_valid_for_field(f), v.is_valid(&k), v.is_default_for_field(f)),
            Fd::X(f) => (v.is_valid_for_extension(f), v.is_valid(&k), v.is_default_for_extension(f)),
        });
        let kd = guard(|| (Value::default_value(&k), v.is_default(&k)));
        let fd = guard(|| match f {
            Fd::F(f) => Value::default_value_for_field(f),
            Fd::X(f) => Value::default_value_for_extension(f),
        });
        let dv = |v: Option<Value>| v.map(|v| dump_value(&v, true)).unwrap_or(panicked());
        let (a, b, c) = r.unwrap_or((false, false, false));
        let kdd = kd.as_ref().map(|x| x.1).unwrap_or(false);
        self.ev.push(obj! {"o": J::s("valq"), "mt": J::s(t.full_name()), "n": J::Int(f.number() as i64), "v": dump_value(&v, true),
            "q": J::Bool(r.is_some()), "ff": J::Bool(a), "fk": J::Bool(b), "isd": J::Bool(c), "iskd": J::Bool(kdd), "fdv": dv(fd), "kdv": dv(kd.map(|x| x.0))});
    }
    /// the typed views of a value, of a mutable value and of a map key
    pub fn op_acc(&mut self, t: &MessageDescriptor) {
        let fs = Fd::all(t);
        if fs.is_empty() {
            return;
        }
        let f = self.r().pick(&fs).clone();
        let k = f.kind();
        let mut v = if self.r().pct(50) { self.wrong_value(&f) } else { self.g.value(&f, 2) };
        // elements and keys are values too
        if self.r().pct(50) {
            let inner = match &v {
                Value::List(xs) => xs.first().cloned(),
                Value::Map(m) => m.iter().next().map(|(k, x)| if self.r().pct(60) { k.clone().into() } else { x.clone() }),
                _ => None,
            };
            v = inner.unwrap_or(v);
        }
        let d = dump_value(&v, true);
        let r = guard(|| {
            let mut a: Vec<J> = vec![];
            macro_rules! view {
                ($t:expr, $x:expr) => {
                    if let Some(x) = $x {
                        a.push(obj! {"a": J::s($t), "d": dump_value(&x, true)});
                    }
                };
            }
            view!("bool", v.as_bool().map(Value::Bool));
            view!("i32", v.as_i32().map(Value::I32));
            view!("i64", v.as_i64().map(Value::I64));
            view!("u32", v.as_u32().map(Value::U32));
            view!("u64", v.as_u64().map(Value::U64));
            view!("f32", v.as_f32().map(Value::F32));
            view!("f64", v.as_f64().map(Value::F64));
            view!("string", v.as_str().map(|x| Value::String(x.to_string())));
            view!("bytes", v.as_bytes().map(|x| Value::Bytes(x.clone())));
            view!("enum", v.as_enum_number().map(Value::EnumNumber));
            view!("msg", v.as_message().map(|x| Value::Message(x.clone())));
            view!("list", v.as_list().map(|x| Value::List(x.to_vec())));
            view!("map", v.as_map().map(|x| Value::Map(x.clone())));
            let mut w = v.clone();
            view!("bool", w.as_bool_mut().map(|x| Value::Bool(*x)));
            view!("i32", w.as_i32_mut().map(|x| Value::I32(*x)));
            view!("i64", w.as_i64_mut().map(|x| Value::I64(*x)));
            view!("u32", w.as_u32_mut().map(|x| Value::U32(*x)));
            view!("u64", w.as_u64_mut().map(|x| Value::U64(*x)));
            view!("f32", w.as_f32_mut().map(|x| Value::F32(*x)));
            view!("f64", w.as_f64_mut().map(|x| Value::F64(*x)));
            view!("string", w.as_string_mut().map(|x| Value::String(x.clone())));
            view!("bytes", w.as_bytes_mut().map(|x| Value::Bytes(x.clone())));
            view!("enum", w.as_enum_number_mut().map(|x| Value::EnumNumber(*x)));
            view!("msg", w.as_message_mut().map(|x| Value::Message(x.clone())));
            view!("list", w.as_list_mut().map(|x| Value::List(x.clone())));
            view!("map", w.as_map_mut().map(|x| Value::Map(x.clone())));
            let key = v.clone().into_map_key();
            let mut b = vec![];
            let mut kind = vec![];
            if let Some(key) = &key {
                let mut a: Vec<J> = vec![];
                macro_rules! kview {
                    ($t:expr, $x:expr) => {
                        if let Some(x) = $x {
                            a.push(obj! {"a": J::s($t), "d": dump_value(&x, true)});
                        }
                    };
                }
                kview!("bool", key.as_bool().map(Value::Bool));
                kview!("i32", key.as_i32().map(Value::I32));
                kview!("i64", key.as_i64().map(Value::I64));
                kview!("u32", key.as_u32().map(Value::U32));
                kview!("u64", key.as_u64().map(Value::U64));
                kview!("string", key.as_str().map(|x| Value::String(x.to_string())));
                let mut w = key.clone();
                kview!("bool", w.as_bool_mut().map(|x| Value::Bool(*x)));
                kview!("i32", w.as_i32_mut().map(|x| Value::I32(*x)));
                kview!("i64", w.as_i64_mut().map(|x| Value::I64(*x)));
                kview!("u32", w.as_u32_mut().map(|x| Value::U32(*x)));
                kview!("u64", w.as_u64_mut().map(|x| Value::U64(*x)));
                kview!("string", w.as_string_mut().map(|x| Value::String(x.clone())));
                a.push(obj! {"a": match &d {
                    J::Obj(o) => o[0].1.clone(),
                    _ => J::s(""),
                }, "d": dump_value(&key.clone().into(), true)});
                b = a;
                // the key against a kind that may be a key
                if !matches!(k, Kind::Message(_) | Kind::Enum(_) | Kind::Bytes | Kind::Float | Kind::Double) {
                    kind.push(obj! {"ok": J::Bool(key.is_valid(&k)), "isd": J::Bool(key.is_default(&k)), "d": dump_value(&MapKey::default_value(&k).into(), true)});
                }
            }
            (a, b, kind)
        });
        let (a, b, kind) = match r {
            Some(x) => x,
            None => (vec![panicked()], vec![], vec![]),
        };
        self.ev.push(obj! {"o": J::s("acc"), "mt": J::s(t.full_name()), "n": J::Int(f.number() as i64), "v": d, "a": J::Arr(a), "b": J::Arr(b), "k": J::Arr(kind)});
    }
    /// lookups of declared fields and extensions of a message type
    pub fn op_look(&mut self, t: &MessageDescriptor) {
        let all = self.any_type();
        let pool: Vec<Fd> = if self.r().pct(70) { Fd::all(t) } else { Fd::all(&all) };
        let (n, nm) = if pool.is_empty() || self.r().pct(10) {
            (*self.r().pick(&[0u32, 1, 7, 100, 536870911]), (*self.r().pick(BAD_NAMES)).to_string())
        } else {
            match self.r().pick(&pool).clone() {
                Fd::F(f) => (f.number(), if self.r().pct(50) { f.name().to_string() } else { f.json_name().to_string() }),
                Fd::X(f) => (f.number(), if self.r().pct(50) { f.full_name().to_string() } else { f.json_name().to_string() }),
            }
        };
        let num = |x: Option<u32>| J::opt(x.map(|n| J::Int(n as i64)));
        let r = guard(|| {
            obj! {"o": J::s("look"), "mt": J::s(t.full_name()), "n": J::Int(n as i64), "nm": J::s(&nm),
                "fn": num(t.get_field(n).map(|f| f.number())),
                "fname": num(t.get_field_by_name(&nm).map(|f| f.number())),
                "fjson": num(t.get_field_by_json_name(&nm).map(|f| f.number())),
                "xn": J::opt(t.get_extension(n).map(|f| J::s(f.full_name()))),
                "xfull": num(t.get_extension_by_full_name(&nm).map(|f| f.number())),
                "xjson": num(t.get_extension_by_json_name(&nm).map(|f| f.number())),
                "fs": J::Arr(t.fields().map(|f| J::Int(f.number() as i64)).collect()),
                "xs": J::Arr(t.extensions().map(|f| J::s(f.full_name())).collect()),
            }
        });
        self.ev.push(r.unwrap_or(obj! {"o": J::s("crash"), "where": J::s("descriptor lookup"), "mt": J::s(t.full_name())}));
    }
    /// One random store operation on register x.
    pub fn op(&mut self, x: usize, bad: u64) {
        if self.regs[x].is_none() {
            return;
        }
        match self.r().below(20) {
            0..=5 => self.op_set(x, bad),
            6 | 7 => self.op_get(x),
            8..=11 => self.op_mut(x),
            12..=14 => self.op_clear(x),
            15 => self.op_list(x),
            16 => self.op_itermut(x),
            17 => self.op_drain(x, &["f", "f", "e", "u"]),
            18 => {
                let t = self.m(x).descriptor();
                self.op_valq(&t)
            }
            _ => {
                if self.r().pct(15) {
                    self.op_clearall(x)
                } else {
                    self.op_set(x, bad)
                }
            }
        }
    }
    // ---- crafted wire input ----
    /// a varint encoding, sometimes not minimal
    fn vint(&mut self, v: u64, out: &mut Vec<u8>) {
        if self.r().pct(12) {
            let mut b = vec![];
            varint(v, &mut b);
            let pad = self.r().below(11 - b.len().min(10));
            if pad > 0 {
                let n = b.len();
                b[n - 1] |= 0x80;
                for _ in 0..pad - 1 {
                    b.push(0x80);
                }
                b.push(0);
            }
            out.extend(b);
        } else {
            varint(v, out)
        }
    }
    fn scalar_payload(&mut self, k: &Kind, out: &mut Vec<u8>) {
        match k {
            Kind::Double | Kind::Fixed64 | Kind::Sfixed64 => {
                let b = if self.r().pct(50) { self.g.u64() } else { self.g.f64().to_bits() };
                out.extend(b.to_le_bytes())
            }
            Kind::Float | Kind::Fixed32 | Kind::Sfixed32 => {
                let b = if self.r().pct(50) { self.g.u32() } else { self.g.f32().to_bits() };
                out.extend(b.to_le_bytes())
            }
            Kind::String => {
                let mut b = self.g.string().into_bytes();
                if self.r().pct(8) {
                    b = self.g.bytes();
                }
                varint(b.len() as u64, out);
                out.extend(b)
            }
            Kind::Bytes => {
                let b = self.g.bytes();
                varint(b.len() as u64, out);
                out.extend(b)
            }
            Kind::Bool => {
                let v = *self.r().pick(&[0u64, 1, 1, 2, 256, u64::MAX, 1 << 32]);
                self.vint(v, out)
            }
            _ => {
                let v = if self.r().pct(50) { self.g.u64() } else { self.g.u32() as i32 as i64 as u64 };
                self.vint(v, out)
            }
        }
    }
    fn nat_wt(k: &Kind) -> u8 {
        match k {
            Kind::Double | Kind::Fixed64 | Kind::Sfixed64 => 1,
            Kind::Float | Kind::Fixed32 | Kind::Sfixed32 => 5,
            Kind::String | Kind::Bytes | Kind::Message(_) => 2,
            _ => 0,
        }
    }
    fn one(&mut self, n: u32, k: &Kind, group: bool, d: u32, out: &mut Vec<u8>) {
        if let Kind::Message(m) = k {
            let mut b = vec![];
            if d > 0 {
                self.wire_msg(m, d - 1, &mut b);
            }
            if group != self.r().pct(2) {
                key(n, 3, out);
                out.extend(b);
                key(n, 4, out);
            } else {
                put_bytes(n, &b, out);
            }
        } else {
            let w = Self::nat_wt(k);
            let bad = self.bad();
            let w = if self.r().pct(bad) { *self.r().pick(&[0, 1, 2, 5]) } else { w };
            key(n, w, out);
            self.scalar_payload(k, out);
        }
    }
    fn bad(&self) -> u64 {
        self.g.wire_bad
    }
    pub fn wire_msg(&mut self, desc: &MessageDescriptor, d: u32, out: &mut Vec<u8>) {
        let fs = Fd::all(desc);
        let n = *self.r().pick(&[0usize, 1, 2, 3, 4, 5]);
        for _ in 0..n {
            if fs.is_empty() || self.r().pct(15) {
                self.g.unknown_field(desc, 2, out);
                continue;
            }
            let f = self.r().pick(&fs).clone();
            self.wire_field(&f, d, out);
            if self.r().pct(35) {
                self.wire_field(&f, d, out);
            }
        }
        let bad = self.bad();
        if self.r().pct(bad) {
            match self.r().below(5) {
                0 => out.extend([0x80, 0x80, 0x80]),
                1 => key(1, 4, out),
                2 => {
                    let w = *self.r().pick(&[6u64, 7]);
                    varint((1 << 3) | w, out)
                }
                3 => varint(2, out), // field number zero
                _ => {
                    key(1, 2, out);
                    varint(*self.r().pick(&[5u64, 1 << 31, u64::MAX]), out)
                }
            }
        }
    }
    fn wire_field(&mut self, f: &Fd, d: u32, out: &mut Vec<u8>) {
        let n = f.number();
        let k = f.kind();
        if f.is_map() {
            let e = k.as_message().unwrap().clone();
            let (kk, vk) = (e.map_entry_key_field().kind(), e.map_entry_value_field().kind());
            let mut b = vec![];
            match self.r().below(10) {
                0 => {}
                1 => self.one(2, &vk, false, d.saturating_sub(1), &mut b),
                2 => self.one(1, &kk, false, 0, &mut b),
                3 => {
                    self.one(2, &vk, false, d.saturating_sub(1), &mut b);
                    self.one(1, &kk, false, 0, &mut b);
                }
                4 => {
                    self.one(1, &kk, false, 0, &mut b);
                    self.one(2, &vk, false, d.saturating_sub(1), &mut b);
                    self.one(1, &kk, false, 0, &mut b);
                    self.one(2, &vk, false, d.saturating_sub(1), &mut b);
                }
                5 => {
                    self.one(1, &kk, false, 0, &mut b);
                    self.g.raw_field(7, 2, &mut b);
                    self.one(2, &vk, false, d.saturating_sub(1), &mut b);
                }
                _ => {
                    self.one(1, &kk, false, 0, &mut b);
                    self.one(2, &vk, false, d.saturating_sub(1), &mut b);
                }
            }
            if self.r().pct(2) {
                key(n, 3, out);
                out.extend(b);
                key(n, 4, out);
            } else {
                put_bytes(n, &b, out);
            }
        } else if f.is_list() && Self::nat_wt(&k) != 2 && self.r().pct(50) {
            let mut b = vec![];
            for _ in 0..self.r().below(4) {
                self.scalar_payload(&k, &mut b);
            }
            let bad = self.bad();
            if self.r().pct(bad) {
                b.push(0x80);
            }
            put_bytes(n, &b, out);
        } else {
            self.one(n, &k, f.is_group(), d, out);
        }
    }
    /// random bytes close to a valid encoding
    pub fn mutate(&mut self, b: &mut Vec<u8>) {
        if b.is_empty() {
            b.push(self.r().next() as u8);
            return;
        }
        for _ in 0..self.r().below(2) + 1 {
            let i = self.r().below(b.len());
            match self.r().below(7) {
                0 => b.truncate(i),
                1 => b[i] ^= 1 << self.r().below(8),
                2 => b[i] = self.r().next() as u8,
                3 => b.insert(i, self.g.r.next() as u8),
                4 => {
                    b.remove(i);
                }
                5 => {
                    let j = i + self.g.r.below(b.len() - i);
                    let c = b[i..j].to_vec();
                    b.extend(c)
                }
                _ => b[i] = *self.g.r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xc0, 0xc3, 0xed]),
            }
            if b.is_empty() {
                return;
            }
        }
    }
}

/// A value of the right overall shape for the field (used to keep unchecked operations within their contract).
pub fn valid_shape(f: &Fd, v: &Value) -> bool {
    fn scalar_ok(v: &Value, k: &Kind) -> bool {
        match (v, k) {
            (Value::Bool(_), Kind::Bool) => true,
            (Value::I32(_), Kind::Int32 | Kind::Sint32 | Kind::Sfixed32) => true,
            (Value::I64(_), Kind::Int64 | Kind::Sint64 | Kind::Sfixed64) => true,
            (Value::U32(_), Kind::Uint32 | Kind::Fixed32) => true,
            (Value::U64(_), Kind::Uint64 | Kind::Fixed64) => true,
            (Value::F32(_), Kind::Float) | (Value::F64(_), Kind::Double) | (Value::String(_), Kind::String) | (Value::Bytes(_), Kind::Bytes) | (Value::EnumNumber(_), Kind::Enum(_)) => true,
            (Value::Message(a), Kind::Message(b)) => a.descriptor() == *b,
            _ => false,
        }
    }
    let k = f.kind();
    match v {
        Value::List(l) => f.is_list() && l.iter().all(|v| scalar_ok(v, &k)),
        Value::Map(m) => {
            f.is_map() && {
                let e = k.as_message().unwrap();
                let (kk, vk) = (e.map_entry_key_field().kind(), e.map_entry_value_field().kind());
                m.iter().all(|(k, v)| scalar_ok(&k.clone().into(), &kk) && scalar_ok(v, &vk))
            }
        }
        v => !f.is_list() && !f.is_map() && scalar_ok(v, &k),
    }
}
