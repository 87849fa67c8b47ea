//! A small .proto parser producing the schema IR (used only to write the fixed schemas compactly).
use crate::schema::*;

struct P {
    t: Vec<String>,
    i: usize,
    proto3: bool,
}

fn lex(s: &str) -> Vec<String> {
    let b: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && b[i + 1] == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '"' {
            let mut j = i + 1;
            while b[j] != '"' {
                if b[j] == '\\' {
                    j += 1;
                }
                j += 1;
            }
            out.push(b[i..=j].iter().collect());
            i = j + 1;
        } else if c.is_alphanumeric() || c == '_' || c == '.' || c == '-' || c == '+' {
            let mut j = i + 1;
            while j < b.len()
                && (b[j].is_alphanumeric() || b[j] == '_' || b[j] == '.' || ((b[j] == '-' || b[j] == '+') && (b[j - 1] == 'e')))
            {
                j += 1;
            }
            out.push(b[i..j].iter().collect());
            i = j;
        } else {
            out.push(c.to_string());
            i += 1;
        }
    }
    out
}

pub fn scalar(s: &str) -> i32 {
    match s {
        "double" => 1,
        "float" => 2,
        "int64" => 3,
        "uint64" => 4,
        "int32" => 5,
        "fixed64" => 6,
        "fixed32" => 7,
        "bool" => 8,
        "string" => 9,
        "bytes" => 12,
        "uint32" => 13,
        "sfixed32" => 15,
        "sfixed64" => 16,
        "sint32" => 17,
        "sint64" => 18,
        _ => 0,
    }
}

pub fn camel(s: &str) -> String {
    let mut o = String::new();
    let mut up = true;
    for c in s.chars() {
        if c == '_' {
            up = true
        } else if up {
            o.push(c.to_ascii_uppercase());
            up = false
        } else {
            o.push(c)
        }
    }
    o
}

impl P {
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn next(&mut self) -> String {
        self.i += 1;
        self.t[self.i - 1].clone()
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.peek() == s {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, s: &str) {
        let n = self.next();
        assert_eq!(n, s, "at token {} ({:?})", self.i, &self.t[self.i.saturating_sub(6)..self.i]);
    }
    fn num(&mut self) -> i32 {
        let t = self.next();
        if t == "max" {
            536870912
        } else {
            t.parse().unwrap_or_else(|_| panic!("number {t}"))
        }
    }
    fn string(&mut self) -> String {
        let t = self.next();
        t[1..t.len() - 1].to_string()
    }
    fn field_opts(&mut self, f: &mut Field) {
        if !self.eat("[") {
            return;
        }
        loop {
            let k = self.next();
            self.want("=");
            let v = self.next();
            let raw = v.strip_prefix('"').map(|x| x[..x.len() - 1].to_string()).unwrap_or(v);
            match k.as_str() {
                "packed" => f.packed = Some(raw == "true"),
                "default" => f.dflt = Some(raw),
                "json_name" => f.json = Some(raw),
                "deprecated" => f.deprecated = Some(raw == "true"),
                _ => panic!("option {k}"),
            }
            if self.eat("]") {
                break;
            }
            self.want(",");
        }
    }
    /// A field or group; `scope` receives group messages.
    fn field(&mut self, groups: &mut Vec<Msg>, oneof: Option<i32>) -> Field {
        let mut f = Field { label: 1, ..Default::default() };
        let mut explicit_optional = false;
        match self.peek() {
            "optional" => {
                self.next();
                explicit_optional = true;
            }
            "required" => {
                self.next();
                f.label = 2;
            }
            "repeated" => {
                self.next();
                f.label = 3;
            }
            _ => {}
        }
        if self.proto3 && explicit_optional && oneof.is_none() {
            f.p3opt = true;
        }
        f.oneof = oneof;
        let t = self.next();
        if t == "group" {
            let name = self.next();
            self.want("=");
            f.num = Some(self.num());
            self.field_opts(&mut f);
            f.ty = ty::GROUP;
            f.name = Some(name.to_lowercase());
            f.tname = Some(name.clone());
            let m = self.msg_body(&name);
            groups.push(m);
            return f;
        }
        f.ty = scalar(&t);
        if f.ty == 0 {
            f.tname = Some(t);
        }
        f.name = Some(self.next());
        self.want("=");
        f.num = Some(self.num());
        self.field_opts(&mut f);
        self.want(";");
        f
    }
    fn extend(&mut self, exts: &mut Vec<Field>, groups: &mut Vec<Msg>) {
        let target = self.next();
        self.want("{");
        while !self.eat("}") {
            let mut f = self.field(groups, None);
            f.p3opt = false;
            f.extendee = Some(target.clone());
            exts.push(f);
        }
    }
    fn msg_body(&mut self, name: &str) -> Msg {
        let mut m = Msg { name: Some(name.to_string()), ..Default::default() };
        self.want("{");
        let mut groups = vec![];
        while !self.eat("}") {
            match self.peek() {
                "message" => {
                    self.next();
                    let n = self.next();
                    let x = self.msg_body(&n);
                    m.msgs.push(x);
                }
                "enum" => {
                    self.next();
                    let x = self.enum_();
                    m.enums.push(x);
                }
                "extend" => {
                    self.next();
                    self.extend(&mut m.exts, &mut groups);
                }
                "extensions" => {
                    self.next();
                    loop {
                        let a = self.num();
                        let b = if self.eat("to") {
                            let t = self.num();
                            if t == 536870912 { t } else { t + 1 }
                        } else {
                            a + 1
                        };
                        m.ext_ranges.push((a, b));
                        if self.eat(";") {
                            break;
                        }
                        self.want(",");
                    }
                }
                "reserved" => {
                    self.next();
                    loop {
                        if self.peek().starts_with('"') {
                            m.res_names.push(self.string());
                        } else {
                            let a = self.num();
                            let b = if self.eat("to") {
                                let t = self.num();
                                if t == 536870912 { t } else { t + 1 }
                            } else {
                                a + 1
                            };
                            m.res_ranges.push((a, b));
                        }
                        if self.eat(";") {
                            break;
                        }
                        self.want(",");
                    }
                }
                "oneof" => {
                    self.next();
                    let n = self.next();
                    m.oneofs.push(Some(n));
                    let oi = m.oneofs.len() as i32 - 1;
                    self.want("{");
                    while !self.eat("}") {
                        let f = self.field(&mut groups, Some(oi));
                        m.fields.push(f);
                    }
                }
                "map" => {
                    self.next();
                    self.want("<");
                    let k = self.next();
                    self.want(",");
                    let v = self.next();
                    self.want(">");
                    let n = self.next();
                    self.want("=");
                    let num = self.num();
                    let mut f = Field { label: 3, name: Some(n.clone()), num: Some(num), ..Default::default() };
                    self.field_opts(&mut f);
                    self.want(";");
                    let en = camel(&n) + "Entry";
                    f.tname = Some(en.clone());
                    m.fields.push(f);
                    let vt = scalar(&v);
                    m.msgs.push(Msg {
                        name: Some(en),
                        map_entry: true,
                        fields: vec![
                            Field { name: Some("key".into()), num: Some(1), label: 1, ty: scalar(&k), ..Default::default() },
                            Field {
                                name: Some("value".into()),
                                num: Some(2),
                                label: 1,
                                ty: vt,
                                tname: if vt == 0 { Some(v) } else { None },
                                ..Default::default()
                            },
                        ],
                        ..Default::default()
                    });
                }
                _ => {
                    let f = self.field(&mut groups, None);
                    m.fields.push(f);
                }
            }
        }
        m.msgs.extend(groups);
        // synthetic oneofs come last
        for f in &mut m.fields {
            if f.p3opt {
                f.oneof = Some(m.oneofs.len() as i32);
                m.oneofs.push(Some(format!("_{}", f.name.as_ref().unwrap())));
            }
        }
        m
    }
    fn enum_(&mut self) -> Enum {
        let mut e = Enum { name: Some(self.next()), ..Default::default() };
        self.want("{");
        while !self.eat("}") {
            match self.peek() {
                "option" => {
                    self.next();
                    self.want("allow_alias");
                    self.want("=");
                    e.alias = self.next() == "true";
                    self.want(";");
                }
                "reserved" => {
                    self.next();
                    loop {
                        if self.peek().starts_with('"') {
                            e.res_names.push(self.string());
                        } else {
                            let a = self.num();
                            let b = if self.eat("to") { self.num() } else { a };
                            e.res_ranges.push((a, b));
                        }
                        if self.eat(";") {
                            break;
                        }
                        self.want(",");
                    }
                }
                _ => {
                    let n = self.next();
                    self.want("=");
                    let v = self.num();
                    self.want(";");
                    e.vals.push((Some(n), Some(v)));
                }
            }
        }
        e
    }
}

pub fn parse(name: &str, src: &str) -> File {
    let mut p = P { t: lex(src), i: 0, proto3: false };
    let mut f = File { name: Some(name.to_string()), ..Default::default() };
    while p.i < p.t.len() {
        match p.next().as_str() {
            "syntax" => {
                p.want("=");
                let s = p.string();
                p.proto3 = s == "proto3";
                f.syntax = Some(s);
                p.want(";");
            }
            "package" => {
                f.package = Some(p.next());
                p.want(";");
            }
            "import" => {
                if p.eat("public") {
                    f.public.push(f.deps.len() as i32);
                }
                if p.eat("weak") {
                    f.weak.push(f.deps.len() as i32);
                }
                let s = p.string();
                f.deps.push(s);
                p.want(";");
            }
            "message" => {
                let n = p.next();
                let m = p.msg_body(&n);
                f.msgs.push(m);
            }
            "enum" => {
                let e = p.enum_();
                f.enums.push(e);
            }
            "extend" => {
                let mut groups = vec![];
                p.extend(&mut f.exts, &mut groups);
                f.msgs.extend(groups);
            }
            "service" => {
                let mut s = Svc { name: Some(p.next()), ..Default::default() };
                p.want("{");
                while !p.eat("}") {
                    p.want("rpc");
                    let mut m = Method { name: Some(p.next()), ..Default::default() };
                    p.want("(");
                    m.cs = p.eat("stream");
                    m.input = Some(p.next());
                    p.want(")");
                    p.want("returns");
                    p.want("(");
                    m.ss = p.eat("stream");
                    m.output = Some(p.next());
                    p.want(")");
                    p.want(";");
                    s.methods.push(m);
                }
                f.svcs.push(s);
            }
            t => panic!("unexpected {t}"),
        }
    }
    f
}
