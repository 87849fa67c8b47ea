//! Systematic sweeps over declarations: each variant of a declaration is given to an empty pool.
use crate::{pool::*, schema::*};

const SYN: [Option<&str>; 3] = [None, Some("proto2"), Some("proto3")];

fn s(x: &str) -> Option<String> {
    Some(x.to_string())
}
fn fld(name: &str, num: i32, ty: i32) -> Field {
    let mut f = Field { name: s(name), num: Some(num), label: 1, ty, ..Default::default() };
    match ty {
        ty::MESSAGE | ty::GROUP => f.tname = s(".p.T"),
        ty::ENUM => f.tname = s(".p.E"),
        _ => {}
    }
    f
}
fn file(syntax: Option<&str>, m: Msg) -> File {
    File {
        name: s("f.proto"),
        package: s("p"),
        syntax: syntax.map(|x| x.to_string()),
        msgs: vec![m, Msg { name: s("T"), ..Default::default() }],
        enums: vec![Enum { name: s("E"), vals: vec![(s("ZERO"), Some(0)), (s("ONE"), Some(1))], ..Default::default() }],
        ..Default::default()
    }
}
fn good_default(t: i32) -> &'static str {
    match t {
        ty::BOOL => "true",
        ty::STRING | ty::BYTES => "ab",
        ty::ENUM => "ONE",
        _ => "1",
    }
}
const DEFAULTS: &[&str] = &["", "0", "-0", "1", "-1", "127", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "0x1", "1.0", "1.5", "-1.5e10", "1e400",
    "1e-400", "3.5e38", "inf", "-inf", "nan", "-nan", "Inf", "NaN", "1e", "1.5f", " 1", "1 ", "--1", "1_0", "true", "false", "True", "FALSE", "t", "ZERO", "ONE", "zero", "TWO", "p.ONE", "abc", "a b", "\"q\"", "\\n", "\\\\", "\\", "a\\", "\\q", "\\x41", "\\x4", "\\x", "\\xg", "\\101", "\\1", "\\18", "\\377", "\\400", "\\777", "\\0", "\\'\\\"\\?", "é", "\\303\\251", "\\377\\376"];

/// the field declarations of one type under one syntax
fn fields(t: i32, syn: Option<&str>) -> Vec<File> {
    let mut v = vec![];
    for label in [0, 1, 2, 3] {
        for p3opt in [false, true] {
            for packed in [None, Some(false), Some(true)] {
                for d in [None, s(good_default(t))] {
                    for oneof in [None, Some(0)] {
                        let f = Field { label, p3opt, packed, dflt: d.clone(), oneof, ..fld("f", 1, t) };
                        v.push(file(syn, Msg { name: s("M"), fields: vec![f], oneofs: oneof.map(|_| s("o")).into_iter().collect(), ..Default::default() }));
                    }
                    if syn != None {
                        let f = Field { label, p3opt, packed, dflt: d.clone(), extendee: s(".p.M"), ..fld("x", 5, t) };
                        let mut x = file(syn, Msg { name: s("M"), ext_ranges: vec![(5, 6)], ..Default::default() });
                        x.exts.push(f);
                        v.push(x);
                    }
                }
            }
        }
    }
    v
}
fn defaults(t: i32) -> Vec<File> {
    DEFAULTS.iter().map(|d| file(Some("proto2"), Msg { name: s("M"), fields: vec![Field { dflt: s(d), ..fld("f", 1, t) }], ..Default::default() })).collect()
}
/// the type given and the name given
fn types(t: i32) -> Vec<File> {
    let mut v = vec![];
    for n in [None, s(".p.T"), s("T"), s("p.T"), s(".p.E"), s("E"), s(".p.Nope"), s(".p"), s(".p.M.f"), s(".p.M"), s("."), s(".p.ZERO"), s(".p.E.ZERO")] {
        for syn in [Some("proto2"), Some("proto3")] {
            for label in [1, 3] {
                v.push(file(syn, Msg { name: s("M"), fields: vec![Field { ty: t, tname: n.clone(), label, ..fld("f", 1, 5) }], ..Default::default() }));
            }
        }
    }
    v
}
const NUMBERS: &[i32] = &[i32::MIN, -1, 0, 1, 4, 5, 6, 7, 18999, 19000, 19999, 20000, 536870910, 536870911, 536870912, i32::MAX];
const RANGES: &[(i32, i32)] = &[(5, 6), (5, 7), (1, 6), (6, 5), (5, 5), (0, 6), (-5, 6), (1, 536870912), (536870911, 536870912), (536870911, 536870913), (19000, 20000), (18999, 19001), (1, i32::MAX), (i32::MIN, 2)];
fn numbers(k: usize) -> Vec<File> {
    let r = RANGES[k % RANGES.len()];
    let mut v = vec![];
    for n in NUMBERS {
        // reserved, an extension range, a field and an extension
        let m = Msg { name: s("M"), ..Default::default() };
        let f = fld("f", *n, ty::INT32);
        v.push(file(Some("proto2"), Msg { fields: vec![f.clone()], res_ranges: vec![r], ..m.clone() }));
        v.push(file(Some("proto2"), Msg { fields: vec![f.clone()], ext_ranges: vec![r], ..m.clone() }));
        let x = Field { extendee: s(".p.M"), ..f.clone() };
        let mut e = file(Some("proto2"), Msg { ext_ranges: vec![r], ..m.clone() });
        e.exts.push(x.clone());
        v.push(e.clone());
        e.syntax = s("proto3");
        v.push(e.clone());
        e.syntax = s("proto2");
        e.msgs[0].res_ranges.push((5, 6));
        v.push(e.clone());
        e.msgs[0].res_ranges.clear();
        e.exts[0].name = s("y");
        e.exts.push(x.clone());
        v.push(e.clone());
        e.exts.pop();
        e.msgs[0].ext_ranges.push((4, 5));
        v.push(e.clone());
        e.exts[0].oneof = Some(0);
        v.push(e);
        // enums count to the end of their ranges
        let mut e = file(Some("proto2"), m.clone());
        e.enums[0].vals.push((s("X"), Some(*n)));
        v.push(e.clone());
        e.enums[0].res_ranges.push(r);
        v.push(e);
        // oneof indices
        let mut e = file(Some("proto3"), Msg { fields: vec![Field { oneof: Some(*n), ..fld("f", 1, ty::INT32) }, Field { oneof: Some(0), ..fld("g", 2, ty::INT32) }], oneofs: vec![s("o"), s("o2")], ..m.clone() });
        v.push(e.clone());
        e.public = vec![*n];
        v.push(e.clone());
        e.public = vec![];
        e.weak = vec![*n];
        v.push(e);
        // two fields
        v.push(file(Some("proto2"), Msg { fields: vec![f.clone(), fld("g", 5, ty::INT32)], ..m }));
    }
    v
}
const NAMES: &[&str] = &["a", "A", "a_", "_a", "a_b", "aB", "AB", "ab", "a__b", "a_B", "a1", "a_1", "foo_bar", "fooBar", "f", "o", "M"];
fn names(k: usize) -> Vec<File> {
    let a = NAMES[k % NAMES.len()];
    let mut v = vec![];
    for b in NAMES {
        for syn in [Some("proto2"), Some("proto3")] {
            for (ja, jb) in [(None, None), (Some("x"), Some("x")), (Some("x"), Some("y")), (Some(*b), None), (None, Some(a)), (Some("aB"), None), (None, Some("aB"))] {
                let f = |n: &str, num, j: Option<&str>| Field { json: j.map(|x| x.to_string()), ..fld(n, num, ty::INT32) };
                v.push(file(syn, Msg { name: s("M"), fields: vec![f(a, 1, ja), f(b, 2, jb)], ..Default::default() }));
            }
        }
        // names of other things in one scope
        let m = Msg { name: s("M"), fields: vec![fld(a, 1, ty::INT32)], ..Default::default() };
        v.push(file(Some("proto2"), Msg { oneofs: vec![s(b)], ..m.clone() }));
        v.push(file(Some("proto2"), Msg { msgs: vec![Msg { name: s(b), ..Default::default() }], ..m.clone() }));
        v.push(file(Some("proto2"), Msg { enums: vec![Enum { name: s("N"), vals: vec![(s(b), Some(0))], ..Default::default() }], ..m.clone() }));
        v.push(file(Some("proto2"), Msg { res_names: vec![s(b).unwrap()], ..m.clone() }));
        let mut e = file(Some("proto2"), Msg { ext_ranges: vec![(5, 9)], ..m.clone() });
        e.exts.push(Field { extendee: s(".p.M"), ..fld(b, 5, ty::INT32) });
        v.push(e.clone());
        let x = e.exts.pop().unwrap();
        e.msgs[0].exts.push(x);
        v.push(e.clone());
        e.msgs[0].exts.clear();
        e.svcs.push(Svc { name: s(b), methods: vec![Method { name: s(a), input: s(".p.T"), output: s("T"), ..Default::default() }, Method { name: s(b), input: s(".p.M"), output: s(".p.E"), ..Default::default() }], ..Default::default() });
        v.push(e.clone());
        e.svcs[0].methods[1].output = s(".p.M");
        v.push(e);
    }
    v
}
fn enums(k: usize) -> Vec<File> {
    const LISTS: &[&[Option<i32>]] = &[&[], &[Some(0)], &[Some(1)], &[None], &[Some(0), Some(0)], &[Some(0), Some(1), Some(1)], &[Some(-1), Some(0)], &[Some(0), None], &[Some(5), Some(4), Some(5)], &[Some(i32::MIN), Some(i32::MAX)], &[Some(0), Some(i32::MIN), Some(i32::MAX), Some(i32::MIN)]];
    let l = LISTS[k % LISTS.len()];
    let mut v = vec![];
    for syn in SYN {
        for alias in [false, true] {
            for r in [None, Some((0, 0)), Some((1, 0)), Some((0, 1)), Some((2, 5)), Some((5, 5)), Some((i32::MIN, i32::MAX)), Some((i32::MAX, i32::MAX)), Some((6, i32::MAX))] {
                let mut f = file(syn, Msg { name: s("M"), ..Default::default() });
                f.enums.push(Enum { name: s("F"), vals: l.iter().enumerate().map(|(i, n)| (Some(format!("V{i}")), *n)).collect(), alias, res_ranges: r.into_iter().collect(), ..Default::default() });
                v.push(f.clone());
                f.enums[1].res_names.push("V1".into());
                v.push(f);
            }
        }
    }
    v
}
/// shapes of map entries
fn maps(k: usize) -> Vec<File> {
    let mut v = vec![];
    let kt = k as i32 + 1;
    for vt in 1..=18 {
        let e = Msg { name: s("FEntry"), map_entry: true, fields: vec![fld("key", 1, kt), fld("value", 2, vt)], ..Default::default() };
        let f = Field { label: 3, tname: s(".p.M.FEntry"), ..fld("f", 1, ty::MESSAGE) };
        let m = Msg { name: s("M"), fields: vec![f.clone()], msgs: vec![e.clone()], ..Default::default() };
        for syn in [Some("proto2"), Some("proto3")] {
            v.push(file(syn, m.clone()));
        }
        if vt == 5 {
            let mut edits: Vec<Msg> = vec![];
            let mut ed = |g: &dyn Fn(&mut Msg)| {
                let mut x = m.clone();
                g(&mut x);
                edits.push(x)
            };
            ed(&|m| m.msgs[0].fields[0].label = 3);
            ed(&|m| m.msgs[0].fields[1].label = 3);
            ed(&|m| m.msgs[0].fields[0].label = 2);
            ed(&|m| m.msgs[0].fields[0].num = Some(3));
            ed(&|m| m.msgs[0].fields[1].num = Some(3));
            ed(&|m| m.msgs[0].fields.truncate(1));
            ed(&|m| drop(m.msgs[0].fields.remove(0)));
            ed(&|m| m.msgs[0].fields.clear());
            ed(&|m| m.msgs[0].fields.reverse());
            ed(&|m| m.msgs[0].fields.push(fld("more", 3, 5)));
            ed(&|m| m.msgs[0].map_entry = false);
            ed(&|m| m.fields[0].label = 1);
            ed(&|m| m.fields[0].ty = ty::GROUP);
            ed(&|m| m.msgs[0].name = s("Other"));
            ed(&|m| m.fields[0].name = s("other"));
            ed(&|m| m.msgs[0].fields[0].name = s("k"));
            ed(&|m| m.msgs[0].fields[1].name = s("v"));
            ed(&|m| m.msgs[0].fields[1].dflt = s("1"));
            ed(&|m| m.fields[0].ty = 0);
            for m in edits {
                for syn in [Some("proto2"), Some("proto3")] {
                    v.push(file(syn, m.clone()));
                }
            }
        }
    }
    v
}

pub fn total() -> usize {
    18 * 3 + 18 + 19 + RANGES.len() + NAMES.len() + 11 + 18
}

pub fn run(h: &mut Hist, mut n: usize, dump: bool, places: bool) {
    let mut block = |len: usize| {
        if n < len {
            Some(n)
        } else {
            n -= len;
            None
        }
    };
    let files = if let Some(k) = block(54) {
        fields(k as i32 % 18 + 1, SYN[k / 18])
    } else if let Some(k) = block(18) {
        defaults(k as i32 + 1)
    } else if let Some(k) = block(19) {
        types(k as i32)
    } else if let Some(k) = block(RANGES.len()) {
        numbers(k)
    } else if let Some(k) = block(NAMES.len()) {
        names(k)
    } else if let Some(k) = block(11) {
        enums(k)
    } else {
        maps(n)
    };
    h.files = files;
    if places {
        for f in h.files.iter_mut() {
            crate::pool::locate(&mut h.r, f, 50);
        }
    }
    for i in 0..h.files.len() {
        h.fresh(0);
        let how = h.how();
        if h.add(0, &[i], how) && dump {
            h.probes = Probes::new(&h.files[i..i + 1]);
            h.dump(0);
        }
    }
}
