//! References made absolute and field types made explicit, as protoc writes them.
use crate::schema::*;
use std::collections::HashMap;

pub fn canon(files: &mut [File]) {
    let mut tab = HashMap::new();
    for f in files.iter() {
        let p = f.package.clone().unwrap_or_default();
        for m in &f.msgs {
            collect(m, &p, &mut tab);
        }
        for e in &f.enums {
            tab.insert(dot(&p, e.name.as_deref().unwrap_or("")), true);
        }
    }
    for f in files.iter_mut() {
        let p = f.package.clone().unwrap_or_default();
        for m in &mut f.msgs {
            msg(m, &p, &tab);
        }
        for x in &mut f.exts {
            field(x, &p, &tab);
        }
        for s in &mut f.svcs {
            for m in &mut s.methods {
                fix(&mut m.input, &p, &tab);
                fix(&mut m.output, &p, &tab);
            }
        }
    }
}
fn dot(scope: &str, n: &str) -> String {
    if scope.is_empty() {
        n.to_string()
    } else {
        format!("{scope}.{n}")
    }
}
fn collect(m: &Msg, scope: &str, tab: &mut HashMap<String, bool>) {
    let full = dot(scope, m.name.as_deref().unwrap_or(""));
    for x in &m.msgs {
        collect(x, &full, tab);
    }
    for e in &m.enums {
        tab.insert(dot(&full, e.name.as_deref().unwrap_or("")), true);
    }
    tab.insert(full, false);
}
fn fix(r: &mut Option<String>, scope: &str, tab: &HashMap<String, bool>) -> Option<bool> {
    let n = r.clone()?;
    if let Some(abs) = n.strip_prefix('.') {
        return tab.get(abs).copied();
    }
    let mut s = scope;
    loop {
        let full = dot(s, &n);
        if let Some(k) = tab.get(&full) {
            *r = Some(format!(".{full}"));
            return Some(*k);
        }
        if s.is_empty() {
            return None;
        }
        s = s.rsplit_once('.').map_or("", |x| x.0);
    }
}
fn field(f: &mut Field, scope: &str, tab: &HashMap<String, bool>) {
    fix(&mut f.extendee, scope, tab);
    let k = fix(&mut f.tname, scope, tab);
    if f.ty == 0 {
        match k {
            Some(true) => f.ty = ty::ENUM,
            Some(false) => f.ty = ty::MESSAGE,
            None => {}
        }
    }
    if f.label == 0 {
        f.label = 1;
    }
}
fn msg(m: &mut Msg, scope: &str, tab: &HashMap<String, bool>) {
    let full = dot(scope, m.name.as_deref().unwrap_or(""));
    for x in m.fields.iter_mut().chain(m.exts.iter_mut()) {
        field(x, &full, tab);
    }
    for x in &mut m.msgs {
        msg(x, &full, tab);
    }
}
