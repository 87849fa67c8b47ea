//! Random schemas: sets of files that are mostly valid, and edits that may break one rule.
//! Whether a schema is valid is decided by the specification, never here.
use crate::{proto::camel, rng::Rng, schema::*};
use std::collections::{HashMap, HashSet};

const WORDS: &[&str] = &["A", "B", "C", "Foo", "Bar", "a", "b", "Node", "Item", "E", "K", "foo_bar", "Baz", "c", "Q", "Z1", "x_y_z", "Outer", "Inner", "N"];
const PKGS: &[&str] = &["", "a", "a.b", "b", "a.b.c", "c", "ab", "foo.bar", "a.c", "abc", "a.bc", "foo", "ab.c", "a.b.cd"];
const FNAMES: &[&str] = &["x", "y", "foo", "bar", "foo_bar", "id", "name", "v", "f_1", "_u", "u_", "a", "b", "count", "A", "kind", "fooB", "z", "items", "deep_x_y"];

#[derive(Clone)]
struct Ty {
    segs: Vec<String>,
    file: usize,
    is_enum: bool,
    p3: bool,
    /// extension ranges
    ext: Vec<(i32, i32)>,
    vals: Vec<String>,
}

pub struct SGen {
    pub r: Rng,
    names: HashSet<String>,
    types: Vec<Ty>,
    ext_nums: HashMap<(String, i32), ()>,
    pub files: Vec<File>,
    vis: Vec<HashSet<usize>>,
    uniq: usize,
    /// plain: no exotic references, so that the schema is certainly valid
    pub safe: bool,
    /// messages with many fields
    pub rich: bool,
    /// the package of every file, if fixed
    pub pkg: Option<&'static str>,
}

fn dot(scope: &[String], n: &str) -> String {
    let mut s = scope.join(".");
    if !s.is_empty() {
        s.push('.');
    }
    s + n
}

impl SGen {
    pub fn new(r: Rng) -> Self {
        SGen { r, names: HashSet::new(), types: vec![], ext_nums: HashMap::new(), files: vec![], vis: vec![], uniq: 0, safe: false, rich: false, pkg: None }
    }
    fn name(&mut self, scope: &[String], words: &[&str]) -> String {
        for _ in 0..4 {
            let w = self.r.pick(words).to_string();
            if self.names.insert(dot(scope, &w)) {
                return w;
            }
        }
        loop {
            self.uniq += 1;
            let base = self.r.pick(words).to_string();
            let w = format!("{base}{}", self.uniq);
            if self.names.insert(dot(scope, &w)) {
                return w;
            }
        }
    }
    fn enum_(&mut self, scope: &[String], p3: bool) -> Enum {
        let name = self.name(scope, WORDS);
        let mut e = Enum { name: Some(name.clone()), ..Default::default() };
        let n = 1 + self.r.below(4);
        e.alias = self.r.pct(15);
        let mut used = HashSet::new();
        for i in 0..n {
            let v = self.name(scope, &["X", "Y", "ZERO", "ONE", "V", "A", "UNKNOWN", "lower"]);
            let mut num = if i == 0 && p3 { 0 } else { *self.r.pick(&[0, 1, 2, 3, -1, 5, 100, i32::MAX, i32::MIN, -7]) };
            while !used.insert(num) && !(e.alias && self.r.pct(50)) {
                num = self.r.range(-300, 300) as i32;
            }
            let num = if num == 0 && self.r.pct(20) { None } else { Some(num) };
            e.vals.push((Some(v), num));
        }
        if self.r.pct(30) {
            let lo = *self.r.pick(&[400, -500, 1000, 2000]);
            e.res_ranges.push((lo, lo + *self.r.pick(&[0, 1, 10])));
            if self.r.pct(30) {
                e.res_ranges.push((5000, i32::MAX - 1));
            }
        }
        if self.r.pct(20) {
            e.res_names = vec!["OLD".into(), "older".into()];
        }
        let mut segs = scope.to_vec();
        segs.push(name);
        let vals = e.vals.iter().map(|v| v.0.clone().unwrap()).collect();
        self.types.push(Ty { segs, file: self.files.len(), is_enum: true, p3, ext: vec![], vals });
        e
    }
    /// names only; fields come later, when every type of the file is known
    fn msg_shell(&mut self, scope: &[String], p3: bool, depth: u32) -> Msg {
        let name = self.name(scope, WORDS);
        let mut segs = scope.to_vec();
        segs.push(name.clone());
        let mut m = Msg { name: Some(name), ..Default::default() };
        if self.r.pct(if p3 { 10 } else { 45 }) {
            m.ext_ranges.push(*self.r.pick(&[(100, 200), (1000, 1001), (100, 103), (20000, 536870912)]));
            if self.r.pct(30) {
                m.ext_ranges.push((300, 310));
            }
        }
        if self.r.pct(25) {
            m.res_ranges.push(*self.r.pick(&[(50, 60), (50, 51), (7, 9)]));
            if self.r.pct(30) {
                m.res_ranges.push((70, 72));
            }
        }
        if self.r.pct(15) {
            m.res_names = vec!["gone".into(), "old_name".into()];
        }
        self.types.push(Ty { segs: segs.clone(), file: self.files.len(), is_enum: false, p3, ext: m.ext_ranges.clone(), vals: vec![] });
        if depth < 3 {
            for _ in 0..*self.r.pick(&[0, 0, 1, 1, 2]) {
                let x = self.msg_shell(&segs, p3, depth + 1);
                m.msgs.push(x);
            }
        }
        for _ in 0..*self.r.pick(&[0, 0, 0, 1]) {
            let x = self.enum_(&segs, p3);
            m.enums.push(x);
        }
        m
    }
    /// a reference to a type, seen from inside `scope`
    fn reference(&mut self, segs: &[String], scope: &[String]) -> String {
        if self.safe || self.r.pct(45) {
            return format!(".{}", segs.join("."));
        }
        let common = segs.iter().zip(scope).take_while(|(a, b)| a == b).count().min(segs.len() - 1);
        let drop = if self.r.pct(60) { common } else { self.r.below(common + 1) };
        segs[drop..].join(".")
    }
    fn visible(&self, f: usize) -> Vec<Ty> {
        self.types.iter().filter(|t| t.file == f || self.vis.get(f).is_some_and(|v| v.contains(&t.file))).cloned().collect()
    }
    fn free_num(&mut self, used: &mut HashSet<i32>, m: &Msg) -> i32 {
        loop {
            let n = if self.r.pct(75) { 1 + self.r.below(20) as i32 } else { *self.r.pick(&[15, 16, 2047, 2048, 18999, 20000, 536870911, 536870910, 49, 60, 51, 6, 9, 99, 200, 103, 299]) };
            let hit = |rs: &[(i32, i32)]| rs.iter().any(|r| r.0 <= n && n < r.1);
            if !hit(&m.ext_ranges) && !hit(&m.res_ranges) && used.insert(n) {
                return n;
            }
        }
    }
    fn scalar(&mut self) -> i32 {
        *self.r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 16, 17, 18])
    }
    fn default_text(&mut self, t: i32) -> String {
        let r = &mut self.r;
        match t {
            ty::DOUBLE | ty::FLOAT => r.pick(&["0", "1.5", "-2.25", "inf", "-inf", "nan", "1e3", "-0", "3.4e38", "123456789", "0.1", "5e-324", "1E-2", "-nan"]).to_string(),
            ty::INT32 | ty::SINT32 | ty::SFIXED32 => r.pick(&["0", "7", "-1", "2147483647", "-2147483648", "00012", "+5"]).to_string(),
            ty::INT64 | ty::SINT64 | ty::SFIXED64 => r.pick(&["0", "42", "-9", "9223372036854775807", "-9223372036854775808", "4294967296"]).to_string(),
            ty::UINT32 | ty::FIXED32 => r.pick(&["0", "1", "4294967295"]).to_string(),
            ty::UINT64 | ty::FIXED64 => r.pick(&["0", "1", "18446744073709551615"]).to_string(),
            ty::BOOL => r.pick(&["true", "false"]).to_string(),
            ty::STRING => r.pick(&["", "hello", "a\\nb", "\"q\"", "tab\there", "ünï"]).to_string(),
            _ => r.pick(&["", "abc", "\\000\\377", "\\x41\\n", "\\\"\\'\\\\", "x\\0y", "\\a\\b\\f\\r\\t\\v\\?", "\\101b", "\\18"]).to_string(),
        }
    }
    fn bad_default(&mut self, t: i32) -> String {
        let r = &mut self.r;
        match t {
            ty::DOUBLE | ty::FLOAT => r.pick(&["", "x", "1.5f", "1e", "0x10", " 1", "1 ", "--1", "infin", ".", "1_000"]).to_string(),
            ty::INT32 | ty::SINT32 | ty::SFIXED32 => r.pick(&["", "x", "2147483648", "-2147483649", "1.0", "0x1", " 1", "4294967295", "-"]).to_string(),
            ty::INT64 | ty::SINT64 | ty::SFIXED64 => r.pick(&["", "9223372036854775808", "-9223372036854775809", "1e3", "18446744073709551616"]).to_string(),
            ty::UINT32 | ty::FIXED32 => r.pick(&["", "-1", "4294967296", "1.5", "x"]).to_string(),
            ty::UINT64 | ty::FIXED64 => r.pick(&["", "-1", "18446744073709551616", "x"]).to_string(),
            ty::BOOL => r.pick(&["", "True", "1", "0", "yes", "t"]).to_string(),
            ty::STRING => "any".to_string(),
            ty::BYTES => r.pick(&["\\", "\\q", "\\x1", "\\400", "\\xg1", "abc\\", "\\x", "\\777"]).to_string(),
            _ => r.pick(&["", "NOPE", "zero", "0"]).to_string(),
        }
    }
    fn json_name(&mut self) -> Option<String> {
        if self.r.pct(25) {
            self.uniq += 1;
            Some(format!("{}{}", self.r.pick(&["j", "J_", "some-name ", "x.y", "@"]), self.uniq))
        } else {
            None
        }
    }
    fn set_type(&mut self, f: &mut Field, fi: usize, scope: &[String], p3: bool) -> Option<Ty> {
        let vis = self.visible(fi);
        if !vis.is_empty() && self.r.pct(45) {
            let t = self.r.pick(&vis).clone();
            if t.is_enum && p3 && !t.p3 && !self.r.pct(20) {
                f.ty = self.scalar();
                return None;
            }
            f.tname = Some(self.reference(&t.segs, scope));
            f.ty = if self.r.pct(20) { 0 } else if t.is_enum { ty::ENUM } else { ty::MESSAGE };
            if self.r.pct(3) && !self.safe {
                f.ty = *self.r.pick(&[ty::ENUM, ty::MESSAGE, ty::INT32]);
            }
            Some(t)
        } else {
            f.ty = self.scalar();
            None
        }
    }
    fn fill_msg(&mut self, m: &mut Msg, scope: &[String], fi: usize, p3: bool) {
        let mut segs = scope.to_vec();
        segs.push(m.name.clone().unwrap());
        for k in 0..m.msgs.len() {
            let mut x = std::mem::take(&mut m.msgs[k]);
            self.fill_msg(&mut x, &segs, fi, p3);
            m.msgs[k] = x;
        }
        let mut used = HashSet::new();
        let mut flat = HashSet::new();
        let mut jsons = HashSet::new();
        for _ in 0..*self.r.pick(&[0, 0, 0, 1, 2]) {
            let n = self.name(&segs, &["one", "choice", "kind", "of"]);
            m.oneofs.push(Some(n));
        }
        let real = m.oneofs.len();
        let nf = if self.rich { 2 + self.r.below(9) } else { self.r.below(5) };
        for _ in 0..nf {
            let mut n;
            loop {
                n = self.name(&segs, FNAMES);
                if jsons.insert(camel_lower(&n)) && flat.insert(n.to_lowercase().replace('_', "")) {
                    break;
                }
            }
            let mut f = Field { name: Some(n.clone()), num: Some(self.free_num(&mut used, m)), label: 1, ..Default::default() };
            f.json = self.json_name();
            let kind = self.r.below(100);
            if kind < 8 {
                // a map
                let en = camel(&n) + "Entry";
                if !self.names.insert(dot(&segs, &en)) {
                    f.ty = ty::INT32;
                    m.fields.push(f);
                    continue;
                }
                let mut e = Msg { name: Some(en.clone()), map_entry: true, ..Default::default() };
                let key = *self.r.pick(&[3, 4, 5, 6, 7, 8, 9, 13, 15, 16, 17, 18]);
                e.fields.push(Field { name: Some("key".into()), num: Some(1), label: 1, ty: key, ..Default::default() });
                let mut es = segs.clone();
                es.push(en.clone());
                let mut v = Field { name: Some("value".into()), num: Some(2), label: 1, ..Default::default() };
                self.set_type(&mut v, fi, &es, p3);
                e.fields.push(v);
                if self.r.pct(15) {
                    e.fields.swap(0, 1);
                }
                m.msgs.push(e);
                f.label = 3;
                f.ty = if self.r.pct(20) { 0 } else { ty::MESSAGE };
                f.tname = Some(self.reference(&es, &segs));
                m.fields.push(f);
                continue;
            }
            if kind < 14 && !p3 {
                // a group
                let gn = self.name(&segs, &["Grp", "G", "Part"]);
                if self.rich {
                    // the text format relies on the field having the name of the group
                    let low = gn.to_lowercase();
                    if !self.names.insert(dot(&segs, &low)) || !jsons.insert(camel_lower(&low)) || !flat.insert(low.clone()) {
                        continue;
                    }
                    f.name = Some(low);
                }
                let mut gs = segs.clone();
                gs.push(gn.clone());
                let g = Msg {
                    name: Some(gn),
                    fields: vec![Field { name: Some("in_group".into()), num: Some(1 + self.r.below(5) as i32), label: 1, ty: self.scalar(), ..Default::default() }],
                    ..Default::default()
                };
                m.msgs.push(g);
                f.ty = ty::GROUP;
                f.tname = Some(self.reference(&gs, &segs));
                f.label = *self.r.pick(&[1, 2, 3]);
                m.fields.push(f);
                continue;
            }
            let mut fs = segs.clone();
            fs.push(n.clone());
            let t = self.set_type(&mut f, fi, &segs, p3);
            f.label = *self.r.pick(&[0, 1, 1, 1, 3, 3, if p3 { 1 } else { 2 }]);
            if f.label == 3 && self.r.pct(40) {
                f.packed = Some(self.r.pct(50));
            }
            if f.label != 3 && f.label != 2 && real > 0 && self.r.pct(45) {
                f.oneof = Some(self.r.below(real) as i32);
            } else if p3 && f.label < 2 && self.r.pct(30) {
                f.p3opt = true;
                let o = self.name(&segs, &[format!("_{n}").as_str()]);
                f.oneof = Some(m.oneofs.len() as i32);
                m.oneofs.push(Some(o));
            }
            if f.label != 3 && !p3 && self.r.pct(35) {
                match &t {
                    None => f.dflt = Some(self.default_text(f.ty)),
                    Some(t) if t.is_enum => f.dflt = Some(self.r.pick(&t.vals).clone()),
                    _ => (),
                }
            }
            m.fields.push(f);
        }
        // an empty oneof is as good as any other
        for _ in 0..*self.r.pick(&[0, 0, 0, 0, 0, 1]) {
            if let Some(x) = self.extension(fi, &segs, p3) {
                m.exts.push(x);
            }
        }
    }
    fn extension(&mut self, fi: usize, scope: &[String], p3: bool) -> Option<Field> {
        let cands: Vec<Ty> = self.visible(fi).into_iter().filter(|t| !t.ext.is_empty()).collect();
        if cands.is_empty() {
            return None;
        }
        let t = self.r.pick(&cands).clone();
        let rg = *self.r.pick(&t.ext);
        let n = match self.r.below(3) {
            0 => rg.0,
            1 => rg.1 - 1,
            _ => rg.0 + self.r.below((rg.1 - rg.0).min(5) as usize) as i32,
        };
        if self.ext_nums.insert((t.segs.join("."), n), ()).is_some() {
            return None;
        }
        let name = self.name(scope, &["ext", "x_opt", "my_ext", "e", "foo_bar"]);
        let mut f = Field { name: Some(name), num: Some(n), label: *self.r.pick(&[0, 1, 1, 3]), ..Default::default() };
        f.extendee = Some(self.reference(&t.segs, scope));
        let k = self.set_type(&mut f, fi, scope, p3);
        if f.label == 3 && self.r.pct(40) {
            f.packed = Some(self.r.pct(50));
        }
        if f.label != 3 && self.r.pct(30) {
            match &k {
                None => f.dflt = Some(self.default_text(f.ty)),
                Some(t) if t.is_enum => f.dflt = Some(self.r.pick(&t.vals).clone()),
                _ => (),
            }
        }
        if self.r.pct(20) {
            f.json = Some("[some.name]".into());
        }
        Some(f)
    }
    pub fn file(&mut self) {
        let i = self.files.len();
        let mut f = File { name: Some(format!("{}{i}.proto", self.r.pick(&["f", "dir/f", "z"]))), ..Default::default() };
        let p3 = self.r.pct(50);
        f.syntax = if p3 { Some("proto3".into()) } else { self.r.pick(&[None, Some("proto2".to_string())]).clone() };
        let mut pkg = self.r.pick(PKGS).to_string();
        if let Some(p) = self.pkg {
            pkg = p.to_string();
        }
        let parts: Vec<String> = if pkg.is_empty() { vec![] } else { pkg.split('.').map(String::from).collect() };
        // a package may not be named like a definition
        if (1..=parts.len()).any(|k| self.types.iter().any(|t| t.segs.join(".") == parts[..k].join("."))) {
            pkg = format!("only{i}");
        }
        let scope: Vec<String> = if pkg.is_empty() { vec![] } else { pkg.split('.').map(String::from).collect() };
        for k in 1..=scope.len() {
            self.names.insert(scope[..k].join("."));
        }
        f.package = if pkg.is_empty() { self.r.pick(&[None, Some(String::new())]).clone() } else { Some(pkg) };
        let mut vis = HashSet::from([i]);
        for j in 0..i {
            if self.r.pct(60) {
                f.deps.push(self.files[j].name.clone().unwrap());
                if self.r.pct(45) {
                    f.public.push(f.deps.len() as i32 - 1);
                } else if self.r.pct(10) {
                    f.weak.push(f.deps.len() as i32 - 1);
                }
                // what it sees: the import and its public imports
                let mut todo = vec![j];
                while let Some(k) = todo.pop() {
                    if vis.insert(k) {
                        let fk = &self.files[k];
                        for p in &fk.public {
                            let n = &fk.deps[*p as usize];
                            todo.push(self.files.iter().position(|x| x.name.as_ref() == Some(n)).unwrap());
                        }
                    }
                }
            }
        }
        if f.deps.len() > 1 && self.r.pct(30) {
            let map: Vec<String> = f.deps.clone();
            let pubs: HashSet<String> = f.public.iter().map(|p| map[*p as usize].clone()).collect();
            let weak: HashSet<String> = f.weak.iter().map(|p| map[*p as usize].clone()).collect();
            self.r.shuffle(&mut f.deps);
            f.public = (0..f.deps.len()).filter(|k| pubs.contains(&f.deps[*k])).map(|k| k as i32).collect();
            f.weak = (0..f.deps.len()).filter(|k| weak.contains(&f.deps[*k])).map(|k| k as i32).collect();
        }
        self.vis.push(vis);
        for _ in 0..self.r.below(3) {
            let x = self.enum_(&scope, p3);
            f.enums.push(x);
        }
        for _ in 0..self.r.below(4) {
            let x = self.msg_shell(&scope, p3, 1);
            f.msgs.push(x);
        }
        for k in 0..f.msgs.len() {
            let mut x = std::mem::take(&mut f.msgs[k]);
            self.fill_msg(&mut x, &scope, i, p3);
            f.msgs[k] = x;
        }
        for _ in 0..self.r.below(3) {
            if let Some(x) = self.extension(i, &scope, p3) {
                f.exts.push(x);
            }
        }
        let ms: Vec<Ty> = self.visible(i).into_iter().filter(|t| !t.is_enum).collect();
        if !ms.is_empty() {
            for _ in 0..*self.r.pick(&[0, 0, 1, 2]) {
                let n = self.name(&scope, &["Svc", "Service", "Api"]);
                let mut segs = scope.clone();
                segs.push(n.clone());
                let mut s = Svc { name: Some(n), ..Default::default() };
                for _ in 0..self.r.below(4) {
                    let mn = self.name(&segs, &["Get", "put", "Do", "List"]);
                    let (a, b) = (self.r.pick(&ms).clone(), self.r.pick(&ms).clone());
                    s.methods.push(Method {
                        name: Some(mn),
                        input: Some(self.reference(&a.segs, &segs)),
                        output: Some(self.reference(&b.segs, &segs)),
                        cs: self.r.pct(30),
                        ss: self.r.pct(30),
                        ..Default::default()
                    });
                }
                f.svcs.push(s);
            }
        }
        self.files.push(f);
    }
    pub fn schema(&mut self, n: usize) -> Vec<File> {
        for _ in 0..n {
            self.file();
        }
        self.files.clone()
    }

    // ---- edits ----
    fn any_ref(&mut self) -> String {
        let t = if self.types.is_empty() { vec!["nope".to_string()] } else { self.r.pick(&self.types).segs.clone() };
        let full = t.join(".");
        match self.r.below(12) {
            0 => "Nope".into(),
            1 => ".nope.Nope".into(),
            2 => t.last().unwrap().clone(),
            3 => full,
            4 => format!(".{full}"),
            5 => format!(".{}", t[..t.len() - 1].join(".")),
            6 => t[..t.len().max(2) - 1].join("."),
            7 => format!("{full}.Nope"),
            8 => t[self.r.below(t.len())..].join("."),
            9 => {
                // some other name: a field, value, service, package, ...
                let mut v: Vec<&String> = self.names.iter().collect();
                v.sort();
                if v.is_empty() {
                    "x".into()
                } else {
                    let n = self.r.pick(&v).to_string();
                    if self.r.pct(50) {
                        format!(".{n}")
                    } else {
                        n
                    }
                }
            }
            10 => format!("{}.{}", t[0], t.last().unwrap()),
            _ => {
                let k = self.r.below(t.len());
                t[k..].join(".")
            }
        }
    }
    /// applies one edit; gives its name
    pub fn mutate(&mut self, f: &mut File) -> &'static str {
        for _ in 0..200 {
            if let Some(n) = self.try_mutate(f) {
                return n;
            }
        }
        f.syntax = Some("proto4".into());
        "syntax"
    }
    fn try_mutate(&mut self, f: &mut File) -> Option<&'static str> {
        let nm = msg_paths(f);
        let m = if nm.is_empty() { None } else { Some(self.r.pick(&nm).clone()) };
        let k = self.r.below(46);
        match k {
            0 => {
                f.syntax = Some(self.r.pick(&["editions", "", "proto4", "Proto3", "proto3 ", "proto2"]).to_string());
                Some("syntax")
            }
            1 => {
                f.syntax = match f.syntax.as_deref() {
                    Some("proto3") => None,
                    _ => Some("proto3".into()),
                };
                Some("other-syntax")
            }
            2 => {
                f.deps.push(self.r.pick(&["missing.proto", "f9.proto", "", "f0"]).to_string());
                Some("import-unknown")
            }
            3 if !f.deps.is_empty() => {
                let i = self.r.below(f.deps.len());
                f.deps.remove(i);
                f.public.retain(|p| *p != i as i32);
                f.weak.retain(|p| *p != i as i32);
                for p in f.public.iter_mut().chain(&mut f.weak) {
                    if *p > i as i32 {
                        *p -= 1
                    }
                }
                Some("import-removed")
            }
            4 => {
                let v = *self.r.pick(&[-1, f.deps.len() as i32, f.deps.len() as i32 + 3, i32::MIN, i32::MAX, f.deps.len() as i32 - 1]);
                if self.r.pct(50) {
                    f.public.push(v)
                } else {
                    f.weak.push(v)
                }
                Some("import-index")
            }
            5 if !f.public.is_empty() => {
                f.public.pop();
                Some("not-public")
            }
            6..=10 => {
                // a number
                let paths = fields_of(f, m.as_ref()?);
                let x = m.as_ref()?;
                let msg = msg_at(f, x);
                let mut pool = vec![0, -1, 19000, 19999, 18999, 20000, 536870911, 536870912, i32::MAX, i32::MIN, 19500];
                for (a, b) in msg.ext_ranges.iter().chain(&msg.res_ranges) {
                    pool.extend([*a, a - 1, b - 1, *b]);
                }
                pool.extend(msg.fields.iter().filter_map(|f| f.num));
                let n = *self.r.pick(&pool);
                if paths == 0 {
                    return None;
                }
                let i = self.r.below(paths);
                msg_at(f, x).fields[i].num = if self.r.pct(5) { None } else { Some(n) };
                Some("field-number")
            }
            11 => {
                let msg = msg_at(f, m.as_ref()?);
                if msg.fields.is_empty() {
                    return None;
                }
                let i = self.r.below(msg.fields.len());
                let n = msg.fields[i].num?;
                let rg = *self.r.pick(&[(n, n.saturating_add(1)), (n.saturating_sub(3), n), (n.saturating_sub(2), n.saturating_add(1)), (n.saturating_add(1), n.saturating_add(5)), (n, n)]);
                if self.r.pct(50) {
                    msg.res_ranges.push(rg)
                } else {
                    msg.ext_ranges.push(rg)
                }
                Some("range-added")
            }
            12 => {
                let msg = msg_at(f, m.as_ref()?);
                if msg.fields.len() < 2 {
                    return None;
                }
                let i = self.r.below(msg.fields.len());
                let j = self.r.below(msg.fields.len());
                let n = msg.fields[i].name.clone()?;
                let v = match self.r.below(7) {
                    0 => n,
                    1 => camel_lower(&n),
                    2 => n.to_uppercase(),
                    3 => format!("_{n}"),
                    4 => format!("{n}_"),
                    5 => n.replace('_', ""),
                    _ => camel(&n),
                };
                if i == j {
                    return None;
                }
                msg.fields[j].name = Some(v);
                Some("similar-field-name")
            }
            13 => {
                let msg = msg_at(f, m.as_ref()?);
                if msg.fields.len() < 2 {
                    return None;
                }
                let i = self.r.below(msg.fields.len());
                let j = self.r.below(msg.fields.len());
                let n = msg.fields[i].json.clone().unwrap_or_else(|| camel_lower(msg.fields[i].name.as_deref().unwrap()));
                if i == j {
                    return None;
                }
                msg.fields[j].json = Some(n);
                Some("json-name")
            }
            14..=17 => self.rename(f, m.as_ref()),
            18 => {
                let e = self.pick_enum(f)?;
                e.vals.clear();
                Some("enum-empty")
            }
            19 | 20 => {
                let r = self.r.below(100);
                let v = *self.r.pick(&[0, 1, -1, 2, 7]);
                let e = self.pick_enum(f)?;
                match r {
                    0..=29 => e.vals[0].1 = Some(v),
                    30..=59 => {
                        let x = e.vals[0].1;
                        e.vals.last_mut()?.1 = x;
                    }
                    60..=79 => e.vals[0].1 = None,
                    _ => e.alias = !e.alias,
                }
                Some("enum-number")
            }
            21 => {
                let b = self.r.below(6);
                let e = self.pick_enum(f)?;
                let n = e.vals.last()?.1.unwrap_or(0);
                let rg = match b {
                    0 => (n, n),
                    1 => (n.saturating_sub(3), n),
                    2 => (n, n.saturating_add(3)),
                    3 => (n.saturating_sub(3), n.saturating_sub(1)),
                    4 => (n.saturating_add(1), n.saturating_add(3)),
                    _ => (i32::MIN + 1, i32::MAX - 1),
                };
                e.res_ranges.push(rg);
                Some("enum-reserved")
            }
            22..=27 => {
                // a reference
                let rf = self.any_ref();
                let none = self.r.pct(8);
                let v = if none { None } else { Some(rf) };
                let mut refs = all_refs(f);
                if refs.is_empty() {
                    return None;
                }
                let i = self.r.below(refs.len());
                *refs[i] = v;
                Some("reference")
            }
            28 => {
                let t = *self.r.pick(&[0, 10, 11, 14, 5, 9]);
                let clear = self.r.pct(50);
                let mut fs = all_fields(f);
                if fs.is_empty() {
                    return None;
                }
                let i = self.r.below(fs.len());
                fs[i].ty = t;
                if clear {
                    fs[i].tname = None;
                }
                Some("type")
            }
            29..=32 => {
                let mut fs: Vec<&mut Field> = all_fields(f).into_iter().filter(|f| k == 29 || f.tname.is_none()).collect();
                if fs.is_empty() {
                    return None;
                }
                let i = self.r.below(fs.len());
                let t = if fs[i].tname.is_some() { 14 } else { fs[i].ty };
                fs[i].dflt = Some(if self.r.pct(70) { self.bad_default(t) } else { self.default_text(t) });
                Some("default")
            }
            33..=35 => {
                // a map entry
                let es: Vec<Vec<usize>> = nm.iter().filter(|p| msg_at(f, p).map_entry).cloned().collect();
                if es.is_empty() {
                    return None;
                }
                let p = self.r.pick(&es).clone();
                let e = msg_at(f, &p);
                if e.fields.len() < 2 {
                    return None;
                }
                match self.r.below(10) {
                    0 => {
                        e.fields.pop();
                    }
                    1 => {
                        e.fields.remove(0);
                    }
                    2 => e.fields[0].ty = *self.r.pick(&[1, 2, 12, 9, 8, 5]),
                    3 => e.fields[0].label = 3,
                    4 => e.fields[1].label = 3,
                    5 => e.fields[0].num = Some(3),
                    6 => e.map_entry = false,
                    7 => e.fields[1].num = Some(*self.r.pick(&[1, 3])),
                    8 => e.fields.push(Field { name: Some("extra".into()), num: Some(3), label: 1, ty: 5, ..Default::default() }),
                    _ => e.fields.clear(),
                }
                Some("map-entry")
            }
            36 => {
                let e = msg_at(f, m.as_ref()?);
                e.map_entry = !e.map_entry;
                Some("map-flag")
            }
            37 => {
                let mut v = *self.r.pick(&[-1, 0, 1, 2, 5, i32::MIN, i32::MAX]);
                let msg = msg_at(f, m.as_ref()?);
                if msg.fields.is_empty() {
                    return None;
                }
                if self.r.pct(40) {
                    v = msg.oneofs.len() as i32;
                }
                let i = self.r.below(msg.fields.len());
                msg.fields[i].oneof = Some(v);
                Some("oneof-index")
            }
            38 | 39 => {
                let mut xs = all_exts(f);
                if xs.is_empty() {
                    return None;
                }
                let i = self.r.below(xs.len());
                let n = xs[i].num?;
                xs[i].num = Some(*self.r.pick(&[n.saturating_add(1), n.saturating_sub(1), 99, 100, 199, 200, 1001, 1000, 0, 1, 102, 103, 19500, 309, 310, 536870911, 536870912]));
                Some("extension-number")
            }
            40 => {
                let msg = msg_at(f, m.as_ref()?);
                msg.ext_ranges.pop()?;
                Some("extension-range-removed")
            }
            41 => {
                let lab = *self.r.pick(&[0, 1, 2, 3]);
                let mut fs = all_fields(f);
                if fs.is_empty() {
                    return None;
                }
                let i = self.r.below(fs.len());
                fs[i].label = lab;
                Some("label")
            }
            42 => {
                let msg = msg_at(f, m.as_ref()?);
                if msg.fields.is_empty() {
                    return None;
                }
                let i = self.r.below(msg.fields.len());
                let mut x = msg.fields[i].clone();
                if self.r.pct(50) {
                    x.name = Some("dup_of".into());
                    x.json = None;
                } else {
                    x.num = Some(30);
                }
                msg.fields.push(x);
                Some("field-twice")
            }
            43 => {
                if self.r.pct(50) {
                    let x = f.msgs.first()?.clone();
                    f.msgs.push(x);
                } else {
                    let x = f.svcs.first()?.clone();
                    f.svcs.push(x);
                }
                Some("definition-twice")
            }
            44 => {
                f.package = Some(if self.r.pct(50) {
                    // near the package of some file
                    let ps: Vec<String> = self.files.iter().filter_map(|f| f.package.clone()).collect();
                    let mut p = if ps.is_empty() { String::new() } else { self.r.pick(&ps).clone() };
                    if self.r.pct(60) {
                        p.pop();
                    } else {
                        p.push_str(*self.r.pick(&["x", ".x", ".a", "b"]));
                    }
                    p.trim_matches('.').to_string()
                } else {
                    self.any_ref().trim_start_matches('.').to_string()
                });
                if f.package.as_deref() == Some("") {
                    f.package = None;
                }
                Some("package")
            }
            45 => {
                if let Some(p) = &m {
                    let msg = msg_at(f, p);
                    if !msg.fields.is_empty() {
                        let i = self.r.below(msg.fields.len());
                        msg.fields.remove(i);
                        return Some("field-removed");
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn pick_enum<'a>(&mut self, f: &'a mut File) -> Option<&'a mut Enum> {
        let mut v: Vec<&'a mut Enum> = f.enums.iter_mut().collect();
        fn rec<'a>(m: &'a mut Msg, v: &mut Vec<&'a mut Enum>) {
            v.extend(m.enums.iter_mut());
            for x in &mut m.msgs {
                rec(x, v);
            }
        }
        for m in &mut f.msgs {
            rec(m, &mut v);
        }
        if v.is_empty() {
            return None;
        }
        let i = self.r.below(v.len());
        let e = v.swap_remove(i);
        if e.vals.is_empty() {
            return None;
        }
        Some(e)
    }
    /// gives something the name of something else
    fn rename(&mut self, f: &mut File, m: Option<&Vec<usize>>) -> Option<&'static str> {
        let mut words: Vec<String> = self.names.iter().map(|n| n.rsplit('.').next().unwrap().to_string()).collect();
        words.sort();
        words.dedup();
        if words.is_empty() {
            return None;
        }
        let w = Some(self.r.pick(&words).clone());
        match self.r.below(8) {
            0 => self.r.below(3).checked_sub(0).and(f.msgs.last_mut())?.name = w,
            1 => msg_at(f, m?).name = w,
            2 => {
                let x = msg_at(f, m?);
                x.fields.last_mut()?.name = w;
            }
            3 => {
                let x = msg_at(f, m?);
                *x.oneofs.last_mut()? = w;
            }
            4 => self.pick_enum(f)?.name = w,
            5 => self.pick_enum(f)?.vals.last_mut()?.0 = w,
            6 => {
                let mut xs = all_exts(f);
                let n = xs.len();
                if n == 0 {
                    return None;
                }
                xs[self.r.below(n)].name = w;
            }
            _ => {
                let s = f.svcs.last_mut()?;
                if self.r.pct(50) {
                    s.name = w
                } else {
                    s.methods.last_mut()?.name = w
                }
            }
        }
        Some("rename")
    }
}

/// files that only define things in scopes and refer to them; few names, so that everything shadows everything.
/// The first `n` are definitions, the others are variants of one more file that refers to them.
pub fn scopes(r: &mut Rng, n: usize, variants: usize) -> Vec<File> {
    const TOK: &[&str] = &["a", "b", "T", "a", "b"];
    const PK: &[&str] = &["", "a", "b", "a.b", "b.a", "a.b.a", "a.a", "b.b", "a.b.b", "T", "a.T", "b.a.b"];
    let mut names: HashMap<String, bool> = HashMap::new(); // true: a package
    fn join(a: &str, b: &str) -> String {
        if a.is_empty() {
            b.into()
        } else {
            format!("{a}.{b}")
        }
    }
    fn tree(r: &mut Rng, scope: &str, names: &mut HashMap<String, bool>, depth: usize) -> Option<Msg> {
        let t = *r.pick(TOK);
        let full = join(scope, t);
        if names.contains_key(&full) {
            return None;
        }
        names.insert(full.clone(), false);
        let mut m = Msg { name: Some(t.into()), ..Default::default() };
        if depth < 3 {
            for _ in 0..r.below(3) {
                if r.pct(70) {
                    m.msgs.extend(tree(r, &full, names, depth + 1));
                } else if let Some(t) = Some(*r.pick(TOK)).filter(|t| !names.contains_key(&join(&full, t))) {
                    names.insert(join(&full, t), false);
                    m.fields.push(Field { name: Some(t.into()), num: Some(m.fields.len() as i32 + 1), label: 1, ty: 5, ..Default::default() });
                }
            }
        }
        if r.pct(30) {
            m.ext_ranges.push((100, 200));
        }
        Some(m)
    }
    // a package in another, with the same type in both
    let tight = r.pct(45);
    let tok2: [&str; 2] = **r.pick(&[&["T", "b"], &["T", "a"], &["b", "a"]]);
    let mut out: Vec<File> = vec![];
    for i in 0..=n {
        let mut f = File { name: Some(format!("s{i}.proto")), ..Default::default() };
        let mut pkg = String::new();
        for _ in 0..6 {
            let p = if i == n && tight {
                *r.pick(&["a", "a", "a.b", "a.c"])
            } else if tight {
                *r.pick(&["b", "a.b", "a.b", "b.c", "a.b.c"])
            } else {
                *r.pick(PK)
            };
            let parts: Vec<&str> = p.split('.').collect();
            if (1..=parts.len()).all(|k| names.get(&parts[..k].join(".")).copied().unwrap_or(true)) {
                pkg = p.to_string();
                break;
            }
        }
        if !pkg.is_empty() {
            let parts: Vec<&str> = pkg.split('.').collect();
            for k in 1..=parts.len() {
                names.insert(parts[..k].join("."), true);
            }
            f.package = Some(pkg.clone());
        }
        for _ in 0..1 + r.below(3) {
            if tight {
                // the same few names again, in every package
                let t = *r.pick(&tok2);
                if names.insert(join(&pkg, t), false).is_none() {
                    f.msgs.push(Msg { name: Some(t.into()), ..Default::default() });
                }
            }
            f.msgs.extend(tree(r, &pkg, &mut names, if tight { 3 } else { 1 }));
        }
        for j in 0..i {
            if r.pct(35) {
                f.deps.push(format!("s{j}.proto"));
                if r.pct(40) {
                    f.public.push(f.deps.len() as i32 - 1);
                }
            }
        }
        out.push(f);
    }
    // the last file refers
    let last = out.pop().unwrap();
    for _ in 0..variants {
        let mut f = last.clone();
        if r.pct(30) && !f.deps.is_empty() {
            let k = r.below(f.deps.len());
            f.deps.remove(k);
            f.public.clear();
        }
        let mut defined: Vec<&String> = names.keys().collect();
        defined.sort();
        let refer = |r: &mut Rng| {
            if tight && r.pct(70) {
                return format!("b.{}{}", if r.pct(20) { "c." } else { "" }, r.pick(&tok2));
            }
            if r.pct(60) {
                let p: Vec<&str> = r.pick(&defined).split('.').collect();
                let k = r.below(p.len());
                return p[k.min(p.len().saturating_sub(2))..].join(".");
            }
            let k = *r.pick(&[1, 1, 2, 2, 2, 3]);
            let p: Vec<&str> = (0..k).map(|_| *r.pick(TOK)).collect();
            format!("{}{}", if r.pct(10) { "." } else { "" }, p.join("."))
        };
        let ps = msg_paths(&f);
        for k in 0..1 + r.below(2) {
            let x = refer(r);
            match r.below(10) {
                0 => f.svcs.push(Svc { name: Some(format!("S{k}")), methods: vec![Method { name: Some("m".into()), input: Some(x.clone()), output: Some(x), ..Default::default() }], ..Default::default() }),
                1 => f.exts.push(Field { name: Some(format!("e{k}")), num: Some(100 + k as i32), label: 1, ty: 5, extendee: Some(x), ..Default::default() }),
                2 => f.exts.push(Field { name: Some(format!("e{k}")), num: Some(100 + k as i32), label: 1, ty: ty::MESSAGE, tname: Some(x.clone()), extendee: Some(refer(r)), ..Default::default() }),
                _ if !ps.is_empty() => {
                    let p = r.pick(&ps).clone();
                    let m = msg_at(&mut f, &p);
                    m.fields.push(Field { name: Some(format!("f{k}")), num: Some(50 + k as i32), label: 1, ty: if r.pct(30) { 0 } else { ty::MESSAGE }, tname: Some(x), ..Default::default() });
                }
                _ => (),
            }
        }
        out.push(f);
    }
    out
}

/// a file that defines `full` (a dotted name) as something else
pub fn claim(r: &mut Rng, full: &str, name: &str) -> File {
    let segs: Vec<&str> = full.split('.').collect();
    let (pkg, last) = (segs[..segs.len() - 1].join("."), segs[segs.len() - 1].to_string());
    let mut f = File { name: Some(name.into()), package: if pkg.is_empty() { None } else { Some(pkg) }, ..Default::default() };
    match r.below(3) {
        0 => f.enums.push(Enum { name: Some(last), vals: vec![(Some(format!("CLAIM_{}", r.below(1000))), Some(0))], ..Default::default() }),
        1 => f.svcs.push(Svc { name: Some(last), ..Default::default() }),
        _ => f.msgs.push(Msg { name: Some(last), ..Default::default() }),
    }
    f
}

pub fn camel_lower(s: &str) -> String {
    let mut o = String::new();
    let mut up = false;
    for c in s.chars() {
        if c == '_' {
            up = true
        } else if up {
            o.push(c.to_ascii_uppercase());
            up = false
        } else {
            o.push(c)
        }
    }
    o
}

pub fn msg_paths(f: &File) -> Vec<Vec<usize>> {
    fn rec(m: &Msg, p: &mut Vec<usize>, v: &mut Vec<Vec<usize>>) {
        v.push(p.clone());
        for (i, x) in m.msgs.iter().enumerate() {
            p.push(i);
            rec(x, p, v);
            p.pop();
        }
    }
    let mut v = vec![];
    for (i, m) in f.msgs.iter().enumerate() {
        rec(m, &mut vec![i], &mut v);
    }
    v
}
pub fn msg_at<'a>(f: &'a mut File, p: &[usize]) -> &'a mut Msg {
    let mut m = &mut f.msgs[p[0]];
    for i in &p[1..] {
        m = &mut m.msgs[*i];
    }
    m
}
fn fields_of(f: &mut File, p: &[usize]) -> usize {
    msg_at(f, p).fields.len()
}
fn all_fields(f: &mut File) -> Vec<&mut Field> {
    fn rec<'a>(m: &'a mut Msg, v: &mut Vec<&'a mut Field>) {
        v.extend(m.fields.iter_mut());
        v.extend(m.exts.iter_mut());
        for x in &mut m.msgs {
            rec(x, v);
        }
    }
    let mut v: Vec<&mut Field> = f.exts.iter_mut().collect();
    for m in &mut f.msgs {
        rec(m, &mut v);
    }
    v
}
fn all_exts(f: &mut File) -> Vec<&mut Field> {
    all_fields(f).into_iter().filter(|f| f.extendee.is_some()).collect()
}
fn all_refs(f: &mut File) -> Vec<&mut Option<String>> {
    fn field<'a>(x: &'a mut Field, v: &mut Vec<&'a mut Option<String>>) {
        if x.tname.is_some() {
            v.push(&mut x.tname);
        }
        if x.extendee.is_some() {
            v.push(&mut x.extendee);
        }
    }
    fn rec<'a>(m: &'a mut Msg, v: &mut Vec<&'a mut Option<String>>) {
        for x in m.fields.iter_mut().chain(m.exts.iter_mut()) {
            field(x, v);
        }
        for x in &mut m.msgs {
            rec(x, v);
        }
    }
    let mut v = vec![];
    for m in &mut f.msgs {
        rec(m, &mut v);
    }
    for x in &mut f.exts {
        field(x, &mut v);
    }
    for s in &mut f.svcs {
        for m in &mut s.methods {
            v.push(&mut m.input);
            v.push(&mut m.output);
        }
    }
    v
}

/// every full name a set of files defines
pub fn all_names(fs: &[File]) -> Vec<String> {
    let mut v = vec![];
    fn msg(m: &Msg, scope: &str, v: &mut Vec<String>) {
        let full = j(scope, m.name.as_deref().unwrap_or(""));
        v.extend(m.fields.iter().chain(&m.exts).map(|f| j(&full, f.name.as_deref().unwrap_or(""))));
        v.extend(m.oneofs.iter().map(|f| j(&full, f.as_deref().unwrap_or(""))));
        for e in &m.enums {
            en(e, &full, v);
        }
        for x in &m.msgs {
            msg(x, &full, v);
        }
        v.push(full);
    }
    fn en(e: &Enum, scope: &str, v: &mut Vec<String>) {
        v.push(j(scope, e.name.as_deref().unwrap_or("")));
        v.extend(e.vals.iter().map(|x| j(scope, x.0.as_deref().unwrap_or(""))));
    }
    fn j(a: &str, b: &str) -> String {
        if a.is_empty() {
            b.to_string()
        } else {
            format!("{a}.{b}")
        }
    }
    for f in fs {
        let p = f.package.as_deref().unwrap_or("");
        v.push(p.to_string());
        for m in &f.msgs {
            msg(m, p, &mut v);
        }
        for e in &f.enums {
            en(e, p, &mut v);
        }
        v.extend(f.exts.iter().map(|x| j(p, x.name.as_deref().unwrap_or(""))));
        for s in &f.svcs {
            let full = j(p, s.name.as_deref().unwrap_or(""));
            v.extend(s.methods.iter().map(|x| j(&full, x.name.as_deref().unwrap_or(""))));
            v.push(full);
        }
    }
    v.sort();
    v.dedup();
    v
}
