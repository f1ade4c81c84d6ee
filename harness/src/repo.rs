//! Repodata files.
use crate::cat;
use crate::oracle::*;
use crate::rt::*;
use ronda::*;

pub fn warm_repo() {
    crate::gen::warm();
    let p = file(Some(DOC.as_bytes()));
    assert!(read_repodata(p).is_ok());
}
const DOC: &str = r#"{"info":{"subdir":"win-64"},"packages":{"a.tar.bz2":{"build":"py_0","build_number":1,"depends":["b >=1"],"md5":"00","name":"a","sha256":"11","size":12,"timestamp":34,"version":"1.0"}},"packages.conda":{},"repodata_version":1,"removed":["x"]}"#;

fn esc(s: &str, json: &mut String) {
    for c in s.chars() {
        match c {
            '"' => json.push_str("\\\""),
            '\\' => json.push_str("\\\\"),
            _ => json.push(c),
        }
    }
}
struct Rec<'a> {
    build: &'a str,
    num: &'a str,
    dep: &'a [&'a str],
    name: &'a str,
    size: &'a str,
    stamp: &'a str,
    version: &'a str,
    md5: &'a str,
    sha: &'a str,
}
const PLAIN: Rec<'static> = Rec { build: "py_0", num: "1", dep: &["b >=1"], name: "a", size: "12", stamp: "34", version: "1.0", md5: "d41d", sha: "e3b0" };
/// One record, its fields in one of several orders, with or without unknown fields.
fn record(r: &Rec, order: usize, extra: bool) -> String {
    let mut f: Vec<String> = vec![];
    let text = |k: &str, v: &str| -> String {
        let mut s = cat!("\"", k, "\":\"");
        esc(v, &mut s);
        s.push('"');
        s
    };
    f.push(text("build", r.build));
    f.push(cat!("\"build_number\":", r.num));
    let mut d = String::from("\"depends\":[");
    for (i, x) in r.dep.iter().enumerate() {
        if i > 0 {
            d.push(',');
        }
        d.push('"');
        esc(x, &mut d);
        d.push('"');
    }
    d.push(']');
    f.push(d);
    f.push(text("md5", r.md5));
    f.push(text("name", r.name));
    f.push(text("sha256", r.sha));
    f.push(cat!("\"size\":", r.size));
    f.push(cat!("\"timestamp\" : ", r.stamp));
    f.push(text("version", r.version));
    if extra {
        f.push("\"license\":null".into());
        f.push("\"arch\":{\"x\":[1,-2.5e3,true]}".into());
    }
    let n = f.len();
    let mut s = String::from("{");
    for i in 0..n {
        if i > 0 {
            s.push_str(", ");
        }
        let k = match order {
            0 => i,
            1 => n - 1 - i,
            _ => (i + order) % n,
        };
        s.push_str(&f[k]);
    }
    s.push('}');
    s
}
fn same(s: &str, t: &str) -> bool { eq_bytes(s.as_bytes(), t.as_bytes()) }
fn load(doc: &str) -> Option<Repodata> { read_repodata(file(Some(doc.as_bytes()))).ok() }
fn check_record(r: &Record, w: &Rec, num: u64, size: u64, stamp: u64) {
    check(same(&r.build, w.build), 10);
    check(r.build_number as u64 == num, 11);
    check(r.depends.len() == w.dep.len(), 12);
    for i in 0..w.dep.len() {
        check(same(&r.depends[i], w.dep[i]), 13);
    }
    check(same(&r.md5, w.md5) && same(&r.sha256, w.sha), 14);
    check(same(&r.name, w.name), 15);
    check(r.size == size, 16);
    check(r.timestamp == stamp, 17);
    check(same(r.version.as_str(), w.version), 18);
    match w.version.parse::<Version>() {
        Ok(v) => {
            check(r.version == v, 19);
            check(same_parts(&r.version, &v), 20);
        }
        Err(_) => check(false, 21),
    }
}
fn doc(info: &str, pk: &[(&str, &str)], conda: &[(&str, &str)], removed: &[&str], order: usize) -> String {
    let map = |m: &[(&str, &str)]| -> String {
        let mut s = String::from("{");
        for (i, (k, v)) in m.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push('"');
            esc(k, &mut s);
            s.push_str("\":");
            s.push_str(v);
        }
        s.push('}');
        s
    };
    let mut rm = String::from("\"removed\":[");
    for (i, x) in removed.iter().enumerate() {
        if i > 0 {
            rm.push(',');
        }
        rm.push('"');
        esc(x, &mut rm);
        rm.push('"');
    }
    rm.push(']');
    let mut i = String::from("\"info\":{\"subdir\":\"");
    esc(info, &mut i);
    i.push_str("\"}");
    let f = [i, cat!("\"packages\":", map(pk)), cat!("\"packages.conda\" : ", map(conda)), "\"repodata_version\":1".to_string(), rm, "\"zzz\":[{}]".to_string()];
    let mut s = String::from("{");
    for i in 0..6 {
        if i > 0 {
            s.push_str(",\n ");
        }
        s.push_str(&f[(i + order) % 6]);
    }
    s.push('}');
    s
}
const TEXT: &[u8] = &{
    let mut a = [0u8; 96];
    let mut i = 0;
    while i < 96 {
        a[i] = 32 + i as u8;
        i += 1;
    }
    a
};
/// P25: one text field with any printable content
#[no_mangle]
pub extern "C" fn h_p25_text() {
    warm_repo();
    let s = sym_str_upto(0, param(0), TEXT);
    let deps: [&str; 3] = ["b >=1", s.as_str(), ""];
    let (mut r, mut info, mut rm) = (PLAIN, "win-64", vec!["x"]);
    match choice(5) {
        0 => r.build = &s,
        1 => r.name = &s,
        2 => r.dep = &deps,
        3 => info = &s,
        _ => rm = vec![&s, "x"],
    }
    let k = choice(3);
    let rec = record(&r, k, k == 1);
    let d = doc(info, &[("a.tar.bz2", &rec)], &[], &rm, k);
    match load(&d) {
        Some(x) => {
            cover(1);
            check(same(&x.info.subdir, info), 1);
            check(x.packages.len() == 1 && x.packages_conda.len() == 0, 2);
            check(x.repodata_version == 1, 3);
            check(x.removed.len() == rm.len() && (0..rm.len()).all(|i| same(&x.removed[i], rm[i])), 4);
            match x.packages.get("a.tar.bz2") {
                Some(y) => check_record(y, &r, 1, 12, 34),
                None => check(false, 5),
            }
        }
        None => check(false, 6),
    }
}
/// P25: version text, the escapes JSON allows included
#[no_mangle]
pub extern "C" fn h_p25_version() {
    warm_repo();
    let s = cat!(["1", "1!2.", ""][choice(3)], sym_str_upto(0, param(0), TEXT));
    let ok = s.parse::<Version>().is_ok();
    let mut r = PLAIN;
    r.version = &s;
    let rec = record(&r, choice(2), false);
    let other = record(&PLAIN, 0, false);
    // the same record under either map
    let conda = choice(2) == 1;
    let a = [("a-1.tar.bz2", rec.as_str())];
    let b = [("b-1.conda", other.as_str())];
    let d = if conda { doc("noarch", &b, &a, &[], 0) } else { doc("noarch", &a, &b, &[], 3) };
    match load(&d) {
        Some(x) => {
            cover(1);
            check(ok, 1);
            let (m, n) = if conda { (&x.packages_conda, &x.packages) } else { (&x.packages, &x.packages_conda) };
            check(m.len() == 1 && n.len() == 1, 2);
            match (m.get("a-1.tar.bz2"), n.get("b-1.conda")) {
                (Some(y), Some(z)) => {
                    check_record(y, &r, 1, 12, 34);
                    check_record(z, &PLAIN, 1, 12, 34);
                }
                _ => check(false, 3),
            }
        }
        None => {
            cover(2);
            check(!ok, 4)
        }
    }
}
/// P25: a version may be spelled with \u escapes
#[no_mangle]
pub extern "C" fn h_p25_escape() {
    warm_repo();
    let (h, lo) = (["2", "3", "4", "5", "6", "7"][choice(6)], choice(16)); // picking the string settles the high digit
    let c = (h.as_bytes()[0] - b'0') * 16 + lo as u8;
    assume(c < 127 && c != b'!' && c != b'+');
    let x = cat!(h, &(if choice(2) == 0 { "0123456789abcdef" } else { "0123456789ABCDEF" })[lo..lo + 1]);
    let want = unsafe { String::from_utf8_unchecked(vec![b'1', c, b'2']) };
    let rec = record(&PLAIN, 0, false).replace("\"1.0\"", &cat!("\"1\\u00", x, "2\""));
    match load(&doc("noarch", &[("k", &rec)], &[], &[], 0)) {
        Some(d) => match d.packages.get("k") {
            Some(y) => {
                cover(1);
                check(same(y.version.as_str(), &want), 1);
                match want.parse::<Version>() {
                    Ok(v) => check(same_parts(&v, &y.version), 2),
                    Err(_) => check(false, 3),
                }
            }
            None => check(false, 4),
        },
        None => check(false, 5),
    }
}
fn value(s: &str) -> Option<u64> {
    let b = s.as_bytes();
    if b.is_empty() || (b.len() > 1 && b[0] == b'0') {
        return None;
    }
    let mut v = 0u64;
    for c in b {
        v = v.checked_mul(10)?.checked_add((*c - b'0') as u64)?;
    }
    Some(v)
}
/// P25/P26: numeric fields: exact value when it fits, an error when it does not
#[no_mangle]
pub extern "C" fn h_p25_number() {
    warm_repo();
    let n = sym_str_upto(1, param(0), DIGITS);
    let big = ["", "6553", "1844674407370955161", "42949672"][choice(4)];
    let n = cat!(big, n);
    let mut r = PLAIN;
    let k = choice(3);
    match k {
        0 => r.num = &n,
        1 => r.size = &n,
        _ => r.stamp = &n,
    }
    let v = value(&n);
    let ok = match v {
        None => false,
        Some(v) => k != 0 || v <= 65535,
    };
    let rec = record(&r, 2, true);
    match load(&doc("noarch", &[("k", &rec)], &[], &[], 0)) {
        Some(d) => {
            cover(1);
            check(ok, 1);
            let v = v.unwrap_or(0);
            match d.packages.get("k") {
                Some(y) => check_record(y, &r, if k == 0 { v } else { 1 }, if k == 1 { v } else { 12 }, if k == 2 { v } else { 34 }),
                None => check(false, 2),
            }
        }
        None => {
            cover(2);
            check(!ok, 3)
        }
    }
}
/// P25: several records keep their own contents
#[no_mangle]
pub extern "C" fn h_p25_many() {
    warm_repo();
    const K: [&str; 4] = ["a-1.tar.bz2", "b", "", "c d"];
    const V: [&str; 4] = ["1.0", "2.0rc1", "1!3+l", ""];
    let n = choice(param(0) + 1);
    let m = choice(param(0) + 1);
    let g = |i: usize| -> (usize, usize) { (choice(V.len()), i) };
    let pk: Vec<(usize, usize)> = (0..n).map(g).collect();
    let pc: Vec<(usize, usize)> = (0..m).map(g).collect();
    let mk = |x: &(usize, usize), name: &'static str| -> String {
        let mut r = PLAIN;
        r.version = V[x.0];
        r.name = name;
        record(&r, x.0, x.0 == 1)
    };
    let a: Vec<String> = pk.iter().map(|x| mk(x, "p")).collect();
    let b: Vec<String> = pc.iter().map(|x| mk(x, "q")).collect();
    let a2: Vec<(&str, &str)> = (0..n).map(|i| (K[i], a[i].as_str())).collect();
    let b2: Vec<(&str, &str)> = (0..m).map(|i| (K[i], b[i].as_str())).collect();
    match load(&doc("linux-64", &a2, &b2, &["r1", "r2"], n)) {
        Some(d) => {
            cover(1);
            check(d.packages.len() == n && d.packages_conda.len() == m, 1);
            check(d.removed.len() == 2 && same(&d.removed[0], "r1") && same(&d.removed[1], "r2"), 2);
            for (set, map, name) in [(&pk, &d.packages, "p"), (&pc, &d.packages_conda, "q")] {
                for x in set.iter() {
                    match map.get(K[x.1]) {
                        Some(y) => {
                            let mut r = PLAIN;
                            r.version = V[x.0];
                            r.name = name;
                            check_record(y, &r, 1, 12, 34);
                        }
                        None => check(false, 3),
                    }
                }
            }
            trace((n * 10 + m) as u64);
        }
        None => check(false, 4),
    }
}

/// P26: a document cut short anywhere is an error
#[no_mangle]
pub extern "C" fn h_p26_cut() {
    warm_repo();
    let at = choice(DOC.len() + 1);
    let r = load(&DOC[..at]);
    cover(1 + r.is_some() as u32);
    check(r.is_some() == (at == DOC.len()), 1);
    trace(at as u64);
}
/// P26: any single byte replaced by any other: never a panic
#[no_mangle]
pub extern "C" fn h_p26_byte() {
    warm_repo();
    let lo = param(0);
    let at = lo + choice(param(1).min(DOC.len() - lo));
    let mut b = DOC.as_bytes().to_vec();
    b[at] = u8_in(&ALL);
    let utf8 = b[at] < 128;
    let r = read_repodata(file(Some(&b))).is_ok();
    cover(1 + r as u32);
    trace(r as u64);
    // a stray byte that is not UTF-8 cannot be accepted; outside strings only white space, digits or the same byte can
    check(utf8 || !r, 1);
    let structural = |c: u8| c == b'{' || c == b'}' || c == b'[' || c == b']' || c == b':' || c == b',' || c == b'"';
    if structural(DOC.as_bytes()[at]) && b[at] != DOC.as_bytes()[at] {
        check(!r, 2);
    }
}
const ALL: [u8; 256] = {
    let mut a = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        a[i] = i as u8;
        i += 1;
    }
    a
};
/// P26: a short file of any bytes
#[no_mangle]
pub extern "C" fn h_p26_any() {
    warm_repo();
    let n = choice(param(0) + 1);
    let b = bytes_in(n, &ALL);
    let r = read_repodata(file(Some(&b))).is_ok();
    cover(1);
    check(!r, 1);
    trace(r as u64);
}
/// P26: missing or duplicated fields, wrong types, malformed versions, missing file
#[no_mangle]
pub extern "C" fn h_p26_fields() {
    warm_repo();
    const F: [(&str, &str); 13] = [
        ("\"info\":{\"subdir\":\"win-64\"},", ""),
        ("\"subdir\":\"win-64\"", ""),
        ("\"build\":\"py_0\",", ""),
        ("\"build_number\":1,", ""),
        ("\"depends\":[\"b >=1\"],", ""),
        ("\"md5\":\"00\",", ""),
        ("\"name\":\"a\",", ""),
        ("\"sha256\":\"11\",", ""),
        ("\"size\":12,", ""),
        ("\"timestamp\":34,", ""),
        (",\"version\":\"1.0\"", ""),
        ("\"repodata_version\":1,", ""),
        (",\"removed\":[\"x\"]", ""),
    ];
    const BAD: [(&str, &str); 16] = [
        ("\"py_0\"", "1"),
        ("\"build_number\":1", "\"build_number\":\"1\""),
        ("\"build_number\":1", "\"build_number\":-1"),
        ("\"build_number\":1", "\"build_number\":65536"),
        ("\"build_number\":1", "\"build_number\":1.5"),
        ("[\"b >=1\"]", "\"b >=1\""),
        ("[\"b >=1\"]", "[1]"),
        ("\"size\":12", "\"size\":18446744073709551616"),
        ("\"timestamp\":34", "\"timestamp\":null"),
        ("\"1.0\"", "1.0"),
        ("\"1.0\"", "\"1!2!3\""),
        ("\"1.0\"", "\"a!3\""),
        ("\"1.0\"", "\"1+2+3\""),
        ("\"repodata_version\":1", "\"repodata_version\":256"),
        ("\"packages.conda\":{}", "\"packages.conda\":[]"),
        ("\"info\":{\"subdir\":\"win-64\"}", "\"info\":\"win-64\""),
    ];
    let k = choice(3);
    if k == 2 {
        cover(3);
        check(read_repodata(file(None)).is_err(), 3);
        return;
    }
    let (from, to) = if k == 0 { F[choice(13)] } else { BAD[choice(16)] };
    let d = DOC.replacen(from, to, 1);
    check(d != DOC, 4);
    cover(1 + k as u32);
    check(load(&d).is_none(), 5);
}
/// P26: malformed version texts are reported, well-formed ones are not
#[no_mangle]
pub extern "C" fn h_p26_version() {
    warm_repo();
    let s = sym_str_upto(0, param(0), b"!+a1.-");
    let d = DOC.replacen("\"1.0\"", &cat!("\"", s, "\""), 1);
    let ok = ref_parse(&s).is_some();
    cover(1 + ok as u32);
    trace(ok as u64);
    check(load(&d).is_some() == ok, 6);
}

/// P25: every text field and the file names with any printable content, next to other characters
#[no_mangle]
pub extern "C" fn h_p25_fields() {
    warm_repo();
    let s = cat!(["", "x", "\u{e9}\u{1f600}", "C:\\d\"q"][choice(4)], sym_str_upto(0, param(0), TEXT), ["", "\u{20ac}z"][choice(2)]);
    let deps: [&str; 4] = ["b >=1", s.as_str(), s.as_str(), ""];
    let (mut r, mut info, mut rm, mut key) = (PLAIN, "win-64", vec!["x"], "a.tar.bz2");
    match choice(8) {
        0 => r.build = &s,
        1 => r.name = &s,
        2 => r.dep = &deps,
        3 => info = &s,
        4 => r.md5 = &s,
        5 => r.sha = &s,
        6 => key = &s,
        _ => rm = vec![&s, "x", &s],
    }
    let rec = record(&r, 0, false);
    let other = record(&PLAIN, 1, true);
    let conda = choice(2) == 1;
    let m = [(key, rec.as_str()), ("other", other.as_str())];
    assume(!same(key, "other"));
    let d = if conda { doc(info, &[], &m, &rm, 2) } else { doc(info, &m, &[], &rm, 4) };
    match load(&d) {
        Some(x) => {
            cover(1);
            check(same(&x.info.subdir, info), 1);
            check(x.repodata_version == 1, 3);
            check(x.removed.len() == rm.len() && (0..rm.len()).all(|i| same(&x.removed[i], rm[i])), 4);
            let (y, z) = if conda { (&x.packages_conda, &x.packages) } else { (&x.packages, &x.packages_conda) };
            check(y.len() == 2 && z.len() == 0, 2);
            match (y.get(key), y.get("other")) {
                (Some(y), Some(z)) => {
                    check_record(y, &r, 1, 12, 34);
                    check_record(z, &PLAIN, 1, 12, 34);
                }
                _ => check(false, 5),
            }
        }
        None => check(false, 6),
    }
}
/// P25: many records, long texts, long lists; one record has symbolic content
#[no_mangle]
pub extern "C" fn h_p25_size() {
    warm_repo();
    let n = [1, 5, 17, 40][choice(param(0))];
    let at = [0, n - 1, n / 2][choice(3)];
    let c = sym_str(1, b"09aZ.");
    let long = cat!(crate::long::rep("ab-1", 80), c);
    let ver = cat!("1.2.3.4.5.6.7.8.9.10.11rc1.post2.dev3", c);
    let key = |i: usize| -> String { cat!("pkg", crate::long::rep("x", i % 7), i.to_string(), ".tar.bz2") };
    let many: Vec<&str> = (0..60).map(|i| if i == 57 { long.as_str() } else { "dep >=1,<2" }).collect();
    let mut r = PLAIN;
    let mut rm = vec![];
    match choice(5) {
        0 => r.name = &long,
        1 => r.build = &long,
        2 => r.version = &ver,
        3 => r.dep = &many,
        _ => rm = many.clone(),
    }
    let (a, b) = (record(&r, 0, false), record(&PLAIN, 2, true));
    let keys: Vec<String> = (0..n).map(key).collect();
    let m: Vec<(&str, &str)> = (0..n).map(|i| (keys[i].as_str(), if i == at { a.as_str() } else { b.as_str() })).collect();
    let conda = choice(2) == 1;
    let d = if conda { doc("noarch", &[("k", &b)], &m, &rm, 1) } else { doc("noarch", &m, &[("k", &b)], &rm, 0) };
    match load(&d) {
        Some(x) => {
            cover(1);
            trace(n as u64);
            let (y, z) = if conda { (&x.packages_conda, &x.packages) } else { (&x.packages, &x.packages_conda) };
            check(y.len() == n && z.len() == 1, 1);
            for i in 0..n {
                match y.get(&keys[i]) {
                    Some(q) => check_record(q, if i == at { &r } else { &PLAIN }, 1, 12, 34),
                    None => check(false, 2),
                }
            }
            check(x.removed.len() == rm.len() && (0..rm.len()).all(|i| same(&x.removed[i], rm[i])), 4);
        }
        None => check(false, 3),
    }
}
/// P25: documents loaded one after the other keep apart
#[no_mangle]
pub extern "C" fn h_p25_again() {
    warm_repo();
    let (c, e) = (sym_str(1, b"01aZ"), sym_str(1, b"01aZ"));
    let (v, w) = (cat!("1.", c), cat!("1.", e));
    let (mut r, mut q) = (PLAIN, PLAIN);
    r.version = &v;
    r.build = &c;
    q.version = &w;
    q.name = &e;
    let (a, b) = (record(&r, 0, false), record(&q, 1, false));
    let k = choice(2);
    let (d, f) = (doc("noarch", &[("k", &a)], &[], &["x"], 0), doc("win-32", &[(["k", "l"][k], &b)], &[], &[], 0));
    let ask = |doc: &str, key: &str, r: &Rec, info: &str, rm: usize| match load(doc) {
        Some(x) => {
            cover(1);
            check(same(&x.info.subdir, info) && x.removed.len() == rm && x.packages.len() == 1, 1);
            match x.packages.get(key) {
                Some(y) => check_record(y, r, 1, 12, 34),
                None => check(false, 2),
            }
        }
        None => check(false, 3),
    };
    ask(&d, "k", &r, "noarch", 1);
    ask(&f, ["k", "l"][k], &q, "win-32", 0);
    check(load("{").is_none(), 4);
    ask(&d, "k", &r, "noarch", 1);
}
/// P26: two damaged bytes
#[no_mangle]
pub extern "C" fn h_p26_two() {
    warm_repo();
    let n = DOC.len();
    let at = choice(n);
    let by = [1, 2, 7, 40][choice(param(0))];
    let mut b = DOC.as_bytes().to_vec();
    let al: &[u8] = b"\\\"{}[],:0-u \xff";
    b[at] = u8_in(al);
    b[(at + by) % n] = u8_in(al);
    let stray = b.iter().any(|c| *c > 127);
    let r = read_repodata(file(Some(&b))).is_ok();
    cover(1 + r as u32);
    trace(r as u64);
    check(!stray || !r, 1);
}
/// P26: malformed content deep inside a long document
#[no_mangle]
pub extern "C" fn h_p26_size() {
    warm_repo();
    let n = [2, 9, 33][choice(param(0))];
    let at = [0, n - 1, n / 2][choice(3)];
    let good = record(&PLAIN, 0, true);
    const BAD: [(&str, &str); 9] = [("\"1.0\"", "\"1!2!3\""), ("\"1.0\"", "\"a!3\""), ("\"size\":12", "\"size\":-12"), ("\"name\":", "\"nam\":"), ("\"build_number\":1", "\"build_number\":70000"), ("[\"b >=1\"]", "[\"b >=1\",null]"), ("\"1.0\"", "\"1\\ud800\""), ("}", ""), ("\"1.0\"", "1.0")];
    let k = choice(10);
    let bad = if k == 9 { good.clone() } else { good.replacen(BAD[k].0, BAD[k].1, 1) };
    check(k == 9 || bad != good, 2);
    let keys: Vec<String> = (0..n).map(|i| cat!("p", i.to_string())).collect();
    let m: Vec<(&str, &str)> = (0..n).map(|i| (keys[i].as_str(), if i == at { bad.as_str() } else { good.as_str() })).collect();
    let d = if choice(2) == 0 { doc("noarch", &m, &[], &[], 0) } else { doc("noarch", &[], &m, &[], 0) };
    let r = load(&d).is_some();
    cover(1 + r as u32);
    check(r == (k == 9), 3);
}
/// P26: anything but white space in front of or behind the document is malformed
#[no_mangle]
pub extern "C" fn h_p26_tail() {
    warm_repo();
    let n = choice(param(0) + 1);
    let t = match choice(4) {
        0 => bytes_in(n, &ALL),
        1 => DOC.as_bytes().to_vec(),
        2 => ["null", "{}", "/* */", "# x", "\n\n1", ",", "}}"][choice(7)].as_bytes().to_vec(),
        _ => {
            let mut v = vec![b' '; [1, 40, 300][choice(3)]];
            v.push(u8_in(&ALL));
            v
        }
    };
    let blank = t.iter().all(|c| *c == b' ' || *c == b'\n' || *c == b'\r' || *c == b'\t');
    let b = if choice(2) == 0 { [DOC.as_bytes(), &t].concat() } else { [&t, DOC.as_bytes()].concat() };
    let r = read_repodata(file(Some(&b))).is_ok();
    cover(1 + r as u32);
    trace(r as u64);
    check(r == blank, 1);
}
/// P26: version texts with multi-byte characters, well formed or not, of many lengths
#[no_mangle]
pub extern "C" fn h_p26_utf8() {
    warm_repo();
    let c = ["\u{e9}", "\u{20ac}", "\u{1f600}", "a"][choice(4)];
    let m = ["", "!", "+", "!!", "++", "!+"][choice(6)];
    let n = choice(param(0) + 1);
    let s = cat!(crate::long::rep("1", n), c, crate::long::rep(c, [0, 1, 20, 70][choice(4)]), m, c);
    let d = DOC.replacen("\"1.0\"", &cat!("\"", s, "\""), 1);
    let r = load(&d).is_some();
    cover(1 + r as u32);
    trace(n as u64);
    check(r == (m == "" || m == "+"), 1);
}
