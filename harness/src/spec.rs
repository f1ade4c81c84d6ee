//! Single version specs.
use crate::cat;
use crate::gen::*;
use crate::op::ALL;
use crate::oracle::*;
use crate::rt::*;
use crate::ver::{holds, ordering};
use ronda::verif_hooks::{Spec, VersionSpec};
use ronda::*;
use std::convert::TryFrom;

pub fn spec_ok(s: &str) -> VersionSpec {
    match VersionSpec::try_from(s) {
        Ok(v) => v,
        Err(_) => {
            check(false, 900);
            unreachable!()
        }
    }
}
/// Every way to ask whether `spec` accepts the version must give `want`.
pub fn matches(spec: &str, x: &str, want: bool, id: u32) {
    let v: Version = parse_ok(x);
    let s = spec_ok(spec);
    trace(want as u64);
    cover(1 + want as u32);
    check(s.test_match_version(&v) == want, id);
    check(s.test_match(x) == want, id + 1);
    check(s.clone().test_match_version(&v) == want, id + 2);
    match VersionSpecOrConstraintTree::try_from(spec) {
        Ok(t) => check(t.test_match_version(&v) == want && t.test_match(x) == want, id + 3),
        Err(_) => check(false, id + 4),
    }
    match treeify(spec) {
        Ok(t) => check(t.test_match_version(&v) == want, id + 5),
        Err(_) => check(false, id + 6),
    }
}

const OPS: [(&str, usize); 7] = [("==", 0), ("!=", 1), ("<", 2), ("<=", 3), (">=", 4), (">", 5), ("", 0)];
pub fn operator(v: &str, x: &str) {
    let (sign, k) = OPS[choice(7)];
    let (a, b) = (parse_ok(x), parse_ok(v));
    matches(&cat!(sign, v), x, holds(ALL[k], ordering(&a, &b, 1)), 10);
}
/// P16: operator specs over short texts
#[no_mangle]
pub extern "C" fn h_p16_text() {
    warm_spec();
    let v = sym_str_upto(1, param(0), b"019aZ.!+-_");
    let x = sym_str_upto(0, param(1), b"019aZ.");
    operator(&v, &x);
}
/// P16: any printable byte in the operand (no white space, no wildcard, no combining characters)
#[no_mangle]
pub extern "C" fn h_p16_ascii() {
    warm_spec();
    let v = cat!(sym_str(1, b"01aZ.+-_/#%{"), sym_str_upto(0, param(0) - 1, b"!\"#%&'+-./0123456789:;<=>?ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]_`abcdefghijklmnopqrstuvwxyz{}~"));
    let x = ["1", "a", "1.a2", "1!0"][choice(4)];
    operator(&v, x);
}
/// P16: structured operands
#[no_mangle]
pub extern "C" fn h_p16_struct() {
    warm_spec();
    let g = |n: usize| -> String {
        let e = ["", "1!", "2!"][choice(3)];
        let l = ["", "+a", "+b.1"][choice(3)];
        cat!(e, dotted(1, n), l)
    };
    let x = g(param(0));
    let v = ["1.2", "1.2.0", "1.2a1", "1.2.post", "1!1.2", "2.dev+a"][choice(6)];
    if choice(2) == 0 {
        operator(v, &x)
    } else {
        operator(&x, v)
    }
}

const TAILS: [&str; 4] = ["", ".post1.dev", "+lo.cal", ".0.0"];
/// P17: prefix wildcards
pub fn wild(v: &str, x: &str) {
    let (a, b) = (parse_ok(x), parse_ok(v));
    let sw = ref_startswith(&a, &b);
    let o = ordering(&a, &b, 1);
    let (spec, want) = match choice(10) {
        0 => (cat!(v, ".*"), sw),
        1 => (cat!(v, "*"), sw),
        2 => (cat!("=", v), sw),
        3 => (cat!("=", v, ".*"), sw),
        4 => (cat!("!=", v, ".*"), !sw),
        5 => (cat!(">=", v, ".*"), holds(CompOp::Ge, o)),
        6 => (cat!("<=", v, ".*"), holds(CompOp::Le, o)),
        7 => (cat!(">", v, ".*"), holds(CompOp::Gt, o)),
        8 => (cat!("<", v, ".*"), holds(CompOp::Lt, o)),
        _ => ("*".to_string(), true),
    };
    matches(&spec, x, want, 10);
}
#[no_mangle]
pub extern "C" fn h_p17_text() {
    warm_spec();
    let v = sym_str_upto(1, param(0), b"019aZ.!+-");
    // dots in front of the wildcard are part of it
    let v = v.trim_end_matches('.').to_string();
    assume(!v.is_empty() && !v.starts_with('!'));
    let x = sym_str_upto(0, param(1), b"019aZ.");
    wild(&v, &x);
}
#[no_mangle]
pub extern "C" fn h_p17_struct() {
    warm_spec();
    let v = cat!(["", "1!"][choice(2)], dotted(1, param(0)));
    let w = if choice(2) == 0 { v.clone() } else { cat!(["", "1!"][choice(2)], dotted(1, param(0))) };
    let x = cat!(w, TAILS[choice(4)]);
    wild(&v, &x);
}

/// Reference: is this ASCII text a well-formed spec?  None = a regular expression, not judged here.
pub fn ref_valid(s: &str) -> Option<bool> {
    let b = s.as_bytes();
    if b.is_empty() {
        return Some(false);
    }
    let isop = |c: u8| c == b'<' || c == b'>' || c == b'=' || c == b'!' || c == b'~';
    let (caret, dollar) = (b[0] == b'^', b[b.len() - 1] == b'$');
    if caret || dollar {
        return if caret && dollar { None } else { Some(false) };
    }
    if isop(b[0]) {
        let two = b.len() > 1 && b[1] == b'=';
        let n = if two { 2 } else { 1 };
        // the sign: everything but a lone '!' or '~' is known
        if !two && (b[0] == b'!' || b[0] == b'~') {
            return Some(false);
        }
        let rest = &b[n..];
        if rest.is_empty() || isop(rest[0]) {
            return Some(false);
        }
        for c in rest {
            if *c == b' ' || (*c >= 9 && *c <= 13) {
                return Some(false);
            }
        }
        let mut v = &s[n..];
        if v.ends_with(".*") {
            if two && b[0] == b'~' {
                return Some(false);
            }
            v = &v[..v.len() - 2];
        }
        return Some(ref_parse(v).is_some());
    }
    let mut e = b.len();
    while e > 0 && b[e - 1] == b'*' {
        e -= 1;
    }
    if e == 0 && b.len() == 1 {
        return Some(true);
    }
    for c in &b[..e] {
        if *c == b'*' {
            // inner wildcard: becomes a regular expression
            for c in b {
                let plain = (*c >= b'0' && *c <= b'9') || (lower(*c) >= b'a' && lower(*c) <= b'z') || *c == b'.' || *c == b'_' || *c == b'-' || *c == b'+' || *c == b'!' || *c == b'*';
                if !plain {
                    return None;
                }
            }
            return Some(true);
        }
    }
    if e < b.len() {
        while e > 0 && (b[e - 1] == b'*' || b[e - 1] == b'.') {
            e -= 1;
        }
        return Some(ref_parse(&s[..e]).is_some());
    }
    for c in b {
        if *c == b'@' {
            return Some(true);
        }
    }
    Some(ref_parse(s).is_some())
}
pub fn spec_total(s: &str) {
    let r = VersionSpec::try_from(s);
    trace(r.is_ok() as u64);
    cover(1 + r.is_ok() as u32);
    if let Some(w) = ref_valid(s) {
        check(r.is_ok() == w, 1);
    } else {
        cover(3);
    }
    // without combining characters the general entry point agrees
    let plain = !s.bytes().any(|c| c == b'(' || c == b')' || c == b'|' || c == b',' || c == b'^' || c == b'$');
    if plain {
        check(VersionSpecOrConstraintTree::try_from(s).is_ok() == r.is_ok(), 2);
    }
}
/// P18: any ASCII text
#[no_mangle]
pub extern "C" fn h_p18_ascii() {
    warm_spec();
    let s = sym_str_upto(0, param(0), ASCII);
    spec_total(&s);
}
/// P18: operators and wildcards
#[no_mangle]
pub extern "C" fn h_p18_ops() {
    warm_spec();
    let s = sym_str_upto(0, param(0), b"=<>!~*.1a +@");
    spec_total(&s);
}
/// P18: operator, operand and tail
#[no_mangle]
pub extern "C" fn h_p18_parts() {
    warm_spec();
    const SIG: [&str; 14] = ["", "==", "=", "!=", "<", "<=", ">", ">=", "~=", "~", "!", "===", "=>", "!~="];
    const TAIL: [&str; 6] = ["", ".*", "*", "$", " ", "**"];
    let s = cat!(SIG[choice(14)], sym_str_upto(0, param(0), ASCII), TAIL[choice(6)]);
    spec_total(&s);
}
/// P18: regular expressions may be malformed in any way
#[no_mangle]
pub extern "C" fn h_p18_regex() {
    warm_spec();
    const PIECE: [&str; 16] = ["1", ".", "*", "+", "?", "(", ")", "[", "]", "{2}", "|", "\\", "\\d", "a-", "^", "$"];
    let n = choice(param(0) + 1);
    let mut s = String::from("^");
    for _ in 0..n {
        s.push_str(PIECE[choice(16)]);
    }
    s.push('$');
    if let Ok(v) = VersionSpec::try_from(s.as_str()) {
        cover(2);
        trace(v.test_match("1.2") as u64);
        check(eq_bytes(v.get_spec().as_bytes(), s.as_bytes()), 3);
        check(!v.is_exact(), 4);
    } else {
        cover(1);
    }
}
/// P18: multi-byte characters anywhere
#[no_mangle]
pub extern "C" fn h_p18_utf8() {
    warm_spec();
    let c = ["\u{e9}", "\u{663}", "\u{3b1}", "\u{1f600}", "\u{2003}", "\u{ff1d}"][choice(6)];
    let s = cat!(sym_str_upto(0, param(0), b"=<!~*.1^$"), c, sym_str_upto(0, param(0), b"=<!~*.1^$"));
    let r = VersionSpec::try_from(s.as_str());
    cover(1 + r.is_ok() as u32);
    trace(r.is_ok() as u64);
    trace(VersionSpecOrConstraintTree::try_from(s.as_str()).is_ok() as u64);
}

/// P19: inner wildcards stand for any text, the whole text must match
#[no_mangle]
pub extern "C" fn h_p19_glob() {
    warm_spec();
    let p = cat!(sym_str_upto(1, 1, b"1a*"), sym_str_upto(0, param(0), b"1a*."), sym_str(1, b"1a*"));
    let t = sym_str_upto(0, param(1), b"1a.");
    let core = p.trim_end_matches('*');
    assume(core.contains('*'));
    matches(&p, &t, glob(p.as_bytes(), t.as_bytes()), 10);
}
#[no_mangle]
pub extern "C" fn h_p19_shape() {
    warm_spec();
    let lit = |k: usize| -> String { sym_str_upto(0, k, b"019aZ+-_") };
    let (a, b, c) = (lit(1), lit(1), lit(1));
    let p = match choice(4) {
        0 => cat!("1.", a, "*.2", b),
        1 => cat!("*.", a, "rc", b),
        2 => cat!(a, "1*", b, "*2"),
        _ => cat!("*", a, "*.0", b, "*"),
    };
    let t = match choice(4) {
        0 => cat!("1.", a, "5.2", c),
        1 => cat!("3", c, ".", a, "rc", b),
        2 => cat!(c, "1.2", b, "2"),
        _ => cat!("9", a, "1.0", b, c),
    };
    assume(!p.starts_with('+') || true);
    assume(t.bytes().filter(|x| *x == b'+').count() < 2);
    let core = p.trim_end_matches('*');
    assume(core.contains('*'));
    matches(&p, &t, glob(p.as_bytes(), t.as_bytes()), 10);
}
/// Anchored regular expressions built from: literal, '.', '\.', X*, X+, X?, [ab], (x|y)
#[derive(Clone)]
enum Re {
    Set(Vec<u8>, bool),
    Rep(Vec<u8>, bool, usize, usize),
    Alt(String, String),
}
fn re_match(p: &[Re], t: &[u8]) -> bool {
    if p.is_empty() {
        return t.is_empty();
    }
    let hit = |s: &Vec<u8>, any: bool, c: u8| -> bool { any && c != b'\n' || s.iter().any(|x| *x == c) };
    match &p[0] {
        Re::Set(s, any) => !t.is_empty() && hit(s, *any, t[0]) && re_match(&p[1..], &t[1..]),
        Re::Rep(s, any, lo, hi) => {
            let mut n = 0;
            loop {
                if n >= *lo && re_match(&p[1..], &t[n..]) {
                    return true;
                }
                if n == *hi || n == t.len() || !hit(s, *any, t[n]) {
                    return false;
                }
                n += 1;
            }
        }
        Re::Alt(x, y) => (t.starts_with(x.as_bytes()) && re_match(&p[1..], &t[x.len()..])) || (t.starts_with(y.as_bytes()) && re_match(&p[1..], &t[y.len()..])),
    }
}
#[no_mangle]
pub extern "C" fn h_p19_regex() {
    warm_spec();
    let n = choice(param(0) + 1);
    let mut s = String::from("^");
    let mut p = vec![];
    for _ in 0..n {
        match choice(8) {
            0 => {
                s.push_str("1");
                p.push(Re::Set(b"1".to_vec(), false))
            }
            1 => {
                s.push_str("a");
                p.push(Re::Set(b"a".to_vec(), false))
            }
            2 => {
                s.push_str(".");
                p.push(Re::Set(vec![], true))
            }
            3 => {
                s.push_str("\\.");
                p.push(Re::Set(b".".to_vec(), false))
            }
            4 => {
                s.push_str(".*");
                p.push(Re::Rep(vec![], true, 0, usize::MAX))
            }
            5 => {
                s.push_str("[1a]+");
                p.push(Re::Rep(b"1a".to_vec(), false, 1, usize::MAX))
            }
            6 => {
                s.push_str("1?");
                p.push(Re::Rep(b"1".to_vec(), false, 0, 1))
            }
            _ => {
                s.push_str("(1|a.)");
                // "a." inside the group: 'a' and any character; texts below have only '.', 'a', '1'
                p.push(Re::Alt("1".into(), "a\u{1}".into()))
            }
        }
    }
    s.push('$');
    // expand "a<any>" of the group into its three concrete spellings
    let t = sym_str_upto(0, param(1), b"1a.");
    let want = alt(&p, t.as_bytes());
    matches(&s, &t, want, 10);
}
fn alt(p: &[Re], t: &[u8]) -> bool {
    for i in 0..p.len() {
        if let Re::Alt(x, y) = &p[i] {
            if y.ends_with('\u{1}') {
                return ["a1", "aa", "a."].iter().any(|z| {
                    let mut q = p.to_vec();
                    q[i] = Re::Alt(x.clone(), z.to_string());
                    alt(&q, t)
                });
            }
        }
    }
    re_match(p, t)
}

/// P20: exactness and the text of a spec
pub fn exactness(s: &str) {
    if let Ok(v) = VersionSpec::try_from(s) {
        let b = s.as_bytes();
        let isop = b[0] == b'<' || b[0] == b'>' || b[0] == b'=' || b[0] == b'!' || b[0] == b'~';
        let want = if b[0] == b'^' {
            false
        } else if isop {
            b.len() > 1 && b[0] == b'=' && b[1] == b'='
        } else {
            !s.contains('*')
        };
        trace(want as u64);
        cover(1 + want as u32);
        check(v.is_exact() == want, 1);
        check(eq_bytes(v.get_spec().as_bytes(), b), 2);
        check(eq_bytes(v.raw_value().as_bytes(), b), 3);
        match v.exact_value() {
            Some(t) => check(want && eq_bytes(t.as_bytes(), b), 4),
            None => check(!want, 5),
        }
        let c = v.clone();
        check(c.is_exact() == want && eq_bytes(c.get_spec().as_bytes(), b), 6);
        let e: VersionSpecOrConstraintTree = v.into();
        check(e.is_exact() == want && eq_bytes(e.get_spec().as_bytes(), b), 7);
    }
}
#[no_mangle]
pub extern "C" fn h_p20_ascii() {
    warm_spec();
    let s = sym_str_upto(1, param(0), ASCII);
    exactness(&s);
}
#[no_mangle]
pub extern "C" fn h_p20_ops() {
    warm_spec();
    let s = sym_str_upto(1, param(0), b"=<>!~*.1a@^$");
    exactness(&s);
}
/// P20: a spec with '@' accepts exactly the version with that text
#[no_mangle]
pub extern "C" fn h_p20_at() {
    warm_spec();
    let al: &[u8] = b"1a.@A";
    let p = sym_str_upto(1, param(0), al);
    assume(p.bytes().any(|c| c == b'@'));
    let t = if choice(2) == 0 { p.clone() } else { sym_str_upto(0, param(0), al) };
    matches(&p, &t, eq_bytes(p.as_bytes(), t.as_bytes()), 10);
}
/// P20: exact specs accept only versions equal to the one they name
#[no_mangle]
pub extern "C" fn h_p20_only() {
    warm_spec();
    let al: &[u8] = b"019aZ.";
    let v = sym_str_upto(1, param(0), al);
    let x = sym_str_upto(0, param(0), al);
    let s = if choice(2) == 0 { v.clone() } else { cat!("==", v) };
    let (a, b) = (parse_ok(&x), parse_ok(&v));
    let m = spec_ok(&s);
    check(m.is_exact(), 1);
    let want = ordering(&a, &b, 2) == std::cmp::Ordering::Equal;
    cover(1 + want as u32);
    check(m.test_match_version(&a) == want, 3);
    trace(want as u64);
}
/// P20: a tree is never exact, and its text is that of untreeify
#[no_mangle]
pub extern "C" fn h_p20_tree() {
    warm_spec();
    let s = crate::tree::gen_expr(param(0));
    let t = match treeify(&s) {
        Ok(t) => t,
        Err(_) => {
            check(false, 1);
            unreachable!()
        }
    };
    cover(1);
    check(!t.is_exact() && t.exact_value().is_none(), 2);
    let g = t.get_spec();
    let w: VersionSpecOrConstraintTree = t.into();
    check(!w.is_exact() && w.exact_value().is_none(), 3);
    check(eq_bytes(w.get_spec().as_bytes(), g.as_bytes()), 4);
    match untreeify(&w) {
        Ok(u) => check(eq_bytes(u.as_bytes(), g.as_bytes()), 5),
        Err(_) => check(false, 6),
    }
    trace(g.len() as u64);
}

/// Does ^1.*L2$ match, L one of "", "a", "\\."?  (any text in the middle, the literal before the last character)
pub fn glob_want(r: &str, x: &str) -> bool {
    let l = if r.contains('a') {
        "a2"
    } else if r.contains('\\') {
        ".2"
    } else {
        "2"
    };
    x.len() > l.len() && x.starts_with('1') && x.ends_with(l)
}
