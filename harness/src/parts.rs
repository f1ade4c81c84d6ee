//! Components on their own, versions from a caller's parser, what errors and debug output say,
//! clones, and the structural (serde) form.
use crate::cat;
use crate::gen::*;
use crate::long::rep;
use crate::oracle::*;
use crate::rt::*;
use crate::ver::{consistent, holds, sw};
use ronda::verif_hooks::{Spec, VersionParsingError, VersionSpec};
use ronda::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::convert::TryFrom;

/// Any component a caller can make: any number, any text of at most `n` bytes over `al`.
fn free_part(n: usize, al: &[u8]) -> VersionPart {
    match choice(5) {
        0 => VersionPart::Epoch(u32_any() as u16 as i16),
        1 => VersionPart::Integer(u32_any() as i32),
        2 => VersionPart::LexicographicString(sym_str_upto(0, n, al)),
        3 => pep(&sym_str_upto(0, n, al)),
        _ => VersionPart::Empty,
    }
}
fn part_order(p: &VersionPart, q: &VersionPart) -> Ordering {
    match p.partial_cmp(q) {
        Some(o) => o,
        None => {
            check(false, 50);
            unreachable!()
        }
    }
}
pub fn part_check(p: &VersionPart, q: &VersionPart) {
    let o = part_order(p, q);
    trace(ord_code(o));
    cover(1 + ord_code(o) as u32);
    check(o == ref_cmp_part(p, q), 1);
    check(part_order(q, p) == o.reverse(), 2);
    check((p == q) == (o == Ordering::Equal) && (p != q) == (o != Ordering::Equal), 3);
    check((p < q) == (o == Ordering::Less) && (p > q) == (o == Ordering::Greater), 4);
    check((p <= q) == (o != Ordering::Greater) && (p >= q) == (o != Ordering::Less), 5);
    check(part_order(p, p) == Ordering::Equal && p == p && q == &q.clone(), 6);
}
/// P30: any two components
#[no_mangle]
pub extern "C" fn h_p30_pair() {
    warm();
    part_check(&free_part(param(0), b"09aZdev.+"), &free_part(param(0), b"09aZDev.+"));
}
/// P30: texts that contain the words with a rank, in any case
#[no_mangle]
pub extern "C" fn h_p30_words() {
    warm();
    let w = || {
        let b = ["", "z", "D"][choice(3)];
        let e = ["", "x", "1"][choice(3)];
        match choice(5) {
            0 => pep(&cat!(b, sym_str(1, b"dD"), sym_str(1, b"eE"), sym_str(1, b"vVw"), e)),
            1 => pep(&cat!(b, sym_str(1, b"pP"), "o", sym_str(1, b"sS"), sym_str(1, b"tTu"), e)),
            2 => pep(&cat!(b, "devpost", e)),
            3 => pep(&cat!(b, sym_str(1, b"aAzZ"), e)),
            _ => pep(""),
        }
    };
    part_check(&w(), &w());
}
/// P30: the order of components is transitive
#[no_mangle]
pub extern "C" fn h_p30_triple() {
    warm();
    let n = param(0);
    let (p, q, r) = (free_part(n, b"1aZ"), free_part(n, b"1Az"), free_part(n, b"1az"));
    let (pq, qr, pr) = (part_order(&p, &q), part_order(&q, &r), part_order(&p, &r));
    trace(ord_code(pr));
    cover(1 + ord_code(pr) as u32);
    if pq != Ordering::Greater && qr != Ordering::Greater {
        check(pr != Ordering::Greater, 1);
        check(!(pq == Ordering::Less || qr == Ordering::Less) || pr == Ordering::Less, 2);
    }
    if pq == Ordering::Equal {
        check(pr == qr, 3);
    }
}
const SIZES: [usize; 20] = [0, 1, 2, 3, 65, 300, 17, 33, 9, 130, 4, 5, 8, 12, 24, 32, 64, 66, 128, 257];
/// P30: long texts that differ at either end
#[no_mangle]
pub extern "C" fn h_p30_size() {
    warm();
    let n = SIZES[choice(param(0))];
    let m = rep(["a", "xY", "z1.", "dev"][choice(4)], n);
    let mk1 = |s: String, k: usize| if k == 0 { pep(&s) } else { VersionPart::LexicographicString(s) };
    let k = choice(2);
    let c = |b: &[u8]| sym_str_upto(0, 1, b);
    part_check(&mk1(cat!(c(b"aBz"), m, c(b"aAb0")), k), &mk1(cat!(c(b"abz"), m, c(b"aAb0")), k));
}

// ------------------------------------------------------------------ versions from a caller's parser
fn any_error(n: usize) -> VersionParsingError {
    match choice(5) {
        0 => VersionParsingError::Message(sym_str_upto(0, n, ASCII)),
        1 => VersionParsingError::DisallowedCharacter,
        2 => VersionParsingError::DuplicatedEpochCharacter,
        3 => VersionParsingError::DuplicatedLocalSeparatorCharacter,
        _ => VersionParsingError::UnknownParseError,
    }
}
/// P31: what the parser returns is what the version holds; its error is the error
#[no_mangle]
pub extern "C" fn h_p31_parse() {
    warm();
    let text = match choice(4) {
        0 => sym_str_upto(0, param(0), ASCII),
        1 => cat!(sym_str_upto(0, 1, ASCII), rep("1.", [5, 40, 150][choice(3)]), sym_str_upto(0, 1, ASCII)),
        2 => cat!(" \u{e9}", sym_str(1, ASCII), "\u{2003}"),
        _ => cat!("1.0", sym_str_upto(0, 2, b"!+ \x00\n\r\t.")),
    };
    let asked = Cell::new(0);
    if choice(4) == 0 {
        let e = any_error(param(0));
        let r = Version::parse(&text, &|t| {
            asked.set(asked.get() + eq_bytes(t.as_bytes(), text.as_bytes()) as u32);
            Err(e.clone())
        });
        match r {
            Ok(_) => check(false, 1),
            Err(x) => check(x == e, 2),
        }
        cover(2);
        trace(9);
    } else {
        let n = choice(param(1) + 1);
        let parts: Vec<VersionPart> = (0..n).map(|_| free_part(1, b"0a")).collect();
        let r = Version::parse(&text, &|t| {
            asked.set(asked.get() + eq_bytes(t.as_bytes(), text.as_bytes()) as u32);
            Ok(parts.clone())
        });
        match r {
            Err(_) => check(false, 3),
            Ok(v) => {
                check(eq_bytes(v.as_str().as_bytes(), text.as_bytes()), 4);
                check(v.part_count() == n && v.parts().len() == n, 5);
                for i in 0..n {
                    check(same_part(&v.parts()[i], &parts[i]), 6);
                    match v.part(i) {
                        Ok(p) => check(same_part(p, &parts[i]), 7),
                        Err(_) => check(false, 8),
                    }
                }
                check(v.part(n).is_err() && v.part(usize::MAX).is_err(), 9);
                trace(n as u64);
            }
        }
        cover(1);
    }
    check(asked.get() == 1, 10);
}
fn any_order(x: &Version, y: &Version) {
    consistent(x, y);
    let o = ref_cmp(x, y);
    check(x.compare_to_version(y, &CompOp::Eq) == holds(CompOp::Eq, o), 40);
    check(x.compare_to_version(y, &CompOp::Lt) == holds(CompOp::Lt, o), 41);
    sw(x, y);
}
/// P31: versions of any components compare and match prefixes by components
#[no_mangle]
pub extern "C" fn h_p31_order() {
    warm();
    let v = || -> Version {
        let n = choice(param(0) + 1);
        mk((0..n).map(|_| free_part(1, b"0aA")).collect())
    };
    any_order(&v(), &v());
}
/// P31: long ones, alike but for one place
#[no_mangle]
pub extern "C" fn h_p31_size() {
    warm();
    let n = SIZES[choice(param(0))];
    let base = |i: usize| match i % 5 {
        0 => VersionPart::Integer(-(i as i32)),
        1 => VersionPart::LexicographicString("a".repeat(i % 3)),
        2 => VersionPart::Empty,
        3 => VersionPart::Epoch(0),
        _ => pep("rc"),
    };
    let mut a: Vec<VersionPart> = (0..n).map(base).collect();
    let mut b = a.clone();
    if n > 0 && choice(2) == 1 {
        let at = [0, n / 2, n - 1][choice(3)];
        a[at] = free_part(1, b"aB");
        b[at] = free_part(1, b"Ab");
    }
    if choice(2) == 1 {
        a.push(free_part(1, b"a"));
    }
    any_order(&mk(a), &mk(b));
}

// ------------------------------------------------------------------ errors
fn message(e: &VersionParsingError) -> String {
    let s = e.to_string();
    check(!s.is_empty(), 60);
    check(e == &e.clone(), 61);
    s
}
fn is_text(e: &VersionParsingError) -> Option<&str> {
    match e {
        VersionParsingError::Message(m) => Some(m),
        _ => None,
    }
}
fn contains(s: &[u8], w: &[u8]) -> bool {
    s.len() >= w.len() && (0..=s.len() - w.len()).any(|i| eq_bytes(&s[i..i + w.len()], w))
}
fn count(s: &[u8], c: u8) -> usize { s.iter().filter(|x| **x == c).count() }
/// Which of the reasons applies to a rejected version text, if any.
fn version_error(s: &str) {
    let b = s.as_bytes();
    let r = s.parse::<Version>();
    let q = conda_parser(s);
    match (r, q) {
        (Ok(_), Ok(_)) => {
            cover(1);
            trace(0);
        }
        (Err(e), Err(f)) => {
            cover(2);
            check(e == f, 1);
            let m = message(&e);
            if count(b, b'!') > 1 {
                trace(1);
                check(e == VersionParsingError::DuplicatedEpochCharacter, 2);
                check(m == "Duplicate epoch character (!)", 3);
            } else {
                let at = b.iter().position(|x| *x == b'!');
                let (head, tail) = match at {
                    Some(i) => (Some(&b[..i]), &b[i + 1..]),
                    None => (None, b),
                };
                let good = match head {
                    None => true,
                    Some(h) => {
                        let mut z = 0;
                        while z < h.len() && h[z] == b'0' {
                            z += 1;
                        }
                        let d = &h[z..];
                        !h.is_empty() && h.iter().all(|x| *x >= b'0' && *x <= b'9') && (d.len() < 5 || (d.len() == 5 && cmp_bytes(d, b"32767") != Ordering::Greater))
                    }
                };
                if !good {
                    trace(2);
                    match is_text(&e) {
                        Some(t) => check(contains(t.as_bytes(), b) && contains(m.as_bytes(), b), 4),
                        None => check(false, 5),
                    }
                } else {
                    trace(3);
                    check(count(tail, b'+') > 1, 6);
                    check(e == VersionParsingError::DuplicatedLocalSeparatorCharacter, 7);
                    check(m == "duplicated local version separator (+)", 8);
                }
            }
        }
        _ => check(false, 9),
    }
}
/// P32: version texts
#[no_mangle]
pub extern "C" fn h_p32_version() {
    warm();
    version_error(&sym_str_upto(0, param(0), b"!+1a.3 "));
}
/// P32: long version texts with markers at either end
#[no_mangle]
pub extern "C" fn h_p32_size() {
    warm();
    let n = SIZES[choice(param(0))];
    let m = rep(["1", "a", ".2", "\u{e9}"][choice(4)], n);
    version_error(&cat!(sym_str_upto(0, 2, b"!+1"), m, sym_str_upto(0, 2, b"!+1")));
}
/// P32: specs; an operand that is no version is reported as that
fn spec_error(pre: &str, v: &str) {
    let s = cat!(pre, v);
    match VersionSpec::try_from(s.as_str()) {
        Ok(_) => {
            cover(1);
            trace(0)
        }
        Err(e) => {
            cover(2);
            let m = message(&e);
            trace(m.len() as u64);
            match v.parse::<Version>() {
                Err(w) => check(e == w || is_text(&e).is_some(), 1),
                Ok(_) => check(is_text(&e).is_some(), 2),
            }
            let b = v.as_bytes();
            // nothing else is wrong with it
            if !pre.is_empty() && pre != "^" && !b.is_empty() && !b.iter().any(|c| b"=<>!~*^$ \t\n".contains(c)) {
                match v.parse::<Version>() {
                    Err(w) => check(e == w, 3),
                    Ok(_) => check(false, 4),
                }
            }
            match VersionSpecOrConstraintTree::try_from(s.as_str()) {
                Ok(_) => check(s.bytes().any(|c| b"()|,^$".contains(&c)), 5),
                Err(f) => {
                    message(&f);
                }
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn h_p32_spec() {
    warm_spec();
    let pre = ["==", "!=", "<", ">=", "=", "", "~=", "^"][choice(8)];
    spec_error(pre, &sym_str_upto(0, param(0), b"!+1a.* =$"));
}
/// P32: compound specs, from a text and from a list; the reason of the member is passed on
#[no_mangle]
pub extern "C" fn h_p32_tree() {
    warm_spec();
    let t = ["1", "1!!2", "==", "a!1", "1+2+3", "<>1", "^1", ""];
    let (a, b) = (t[choice(8)], t[choice(8)]);
    let s = match choice(5) {
        0 => cat!(a, ",", b),
        1 => cat!("(", a, "|", b, ")"),
        2 => cat!("(", a, ")", b),
        3 => cat!("(", a, "|", b),
        _ => cat!(a, b, "|"),
    };
    match treeify(&s) {
        Ok(_) => {
            cover(1);
            trace(0)
        }
        Err(e) => {
            cover(2);
            trace(e.len() as u64);
            check(!e.is_empty(), 1);
            match VersionSpecOrConstraintTree::try_from(s.as_str()) {
                Ok(_) => check(false, 2),
                Err(f) => check(message(&f) == e, 3),
            }
        }
    }
    match ConstraintTree::try_from(vec![[",", "|", "x"][choice(3)], a, b]) {
        Ok(_) => cover(3),
        Err(f) => {
            message(&f);
        }
    }
}
/// P32: errors are equal exactly when they say the same
#[no_mangle]
pub extern "C" fn h_p32_equal() {
    let (a, b) = (any_error(param(0)), any_error(param(0)));
    let same = match (is_text(&a), is_text(&b)) {
        (Some(x), Some(y)) => eq_bytes(x.as_bytes(), y.as_bytes()),
        (None, None) => eq_bytes(a.to_string().as_bytes(), b.to_string().as_bytes()),
        _ => false,
    };
    cover(10 + same as u32);
    check((a == b) == same && (a != b) != same && a == a.clone(), 1);
    if let Some(x) = is_text(&a) {
        check(eq_bytes(a.to_string().as_bytes(), x.as_bytes()), 2);
    }
}

// ------------------------------------------------------------------ debug output
fn num(v: i64) -> String {
    let mut d = vec![];
    let mut u = v.unsigned_abs();
    loop {
        d.push(b'0' + (u % 10) as u8);
        u /= 10;
        if u == 0 {
            break;
        }
    }
    if v < 0 {
        d.push(b'-');
    }
    d.reverse();
    String::from_utf8(d).unwrap()
}
fn show(p: &VersionPart) -> String {
    match p {
        VersionPart::Epoch(n) => cat!("Epoch(", num(*n as i64), ")"),
        VersionPart::Integer(n) => cat!("Integer(", num(*n as i64), ")"),
        VersionPart::LexicographicString(s) => cat!("LexicographicString(", s, ")"),
        VersionPart::PEP440String(s) => cat!("PEP440String(", s.to_string(), ")"),
        VersionPart::Empty => "Empty".to_string(),
    }
}
/// Numbers small enough, or with few symbolic digits, to be written out.
fn shown_part(n: usize, al: &[u8]) -> VersionPart {
    const NUMS: [i32; 100] = {
        let base = [0, 1, 9, 10, 99, 100, 999, 3276, 12345, 214748364];
        let mut a = [0; 100];
        let mut i = 0;
        while i < 100 {
            let v = base[i / 10] as i64 * 10 + (i % 10) as i64;
            a[i] = if v > 2147483647 { 2147483647 } else { v as i32 };
            i += 1;
        }
        a
    };
    const IDX: [u8; 100] = {
        let mut a = [0; 100];
        let mut i = 0;
        while i < 100 {
            a[i] = i as u8;
            i += 1;
        }
        a
    };
    let number = |max: i32| -> i32 {
        let v = NUMS[u8_in(&IDX) as usize];
        assume(v <= max);
        v
    };
    match choice(7) {
        0 => VersionPart::Epoch(number(32767) as i16),
        1 => VersionPart::Epoch([-1, -32768][choice(2)]),
        2 => VersionPart::Integer(number(2147483647)),
        3 => VersionPart::Integer([-1, -2147483648, 2147483647][choice(3)]),
        4 => VersionPart::LexicographicString(sym_str_upto(0, n, al)),
        5 => pep(&sym_str_upto(0, n, al)),
        _ => VersionPart::Empty,
    }
}
fn debugged(v: &Version) {
    let mut w = String::from("[");
    for (i, p) in v.parts().iter().enumerate() {
        if i > 0 {
            w.push_str(", ");
        }
        w.push_str(&show(p));
    }
    w.push(']');
    let g = format!("{:?}", v);
    trace(g.len() as u64);
    check(eq_bytes(g.as_bytes(), w.as_bytes()), 1);
    if v.part_count() > 0 {
        let mut w = String::from("[\n");
        for p in v.parts().iter() {
            w = cat!(w, "    ", show(p), ",\n");
        }
        w.push(']');
        check(eq_bytes(format!("{:#?}", v).as_bytes(), w.as_bytes()), 2);
    }
    cover(1);
}
/// P33: a component displays as its kind and content
#[no_mangle]
pub extern "C" fn h_p33_part() {
    warm();
    let p = shown_part(param(0), ASCII);
    let w = show(&p);
    check(eq_bytes(format!("{:?}", p).as_bytes(), w.as_bytes()), 1);
    check(eq_bytes(p.to_string().as_bytes(), w.as_bytes()), 2);
    trace(w.len() as u64);
    cover(1);
}
/// P33: the debug output of a version lists its components
#[no_mangle]
pub extern "C" fn h_p33_version() {
    warm();
    let n = choice(param(0) + 1);
    debugged(&mk((0..n).map(|_| shown_part(1, b"a, \"")).collect()));
}
/// P33: parsed texts
#[no_mangle]
pub extern "C" fn h_p33_text() {
    warm();
    let s = sym_str_upto(0, param(0), b"09aZ.+!_");
    let v = parse_ok(&s);
    debugged(&v);
    check(eq_bytes(format!("{}", v).as_bytes(), s.as_bytes()), 3);
}
#[no_mangle]
pub extern "C" fn h_p33_size() {
    warm();
    let n = SIZES[choice(param(0))];
    let s = cat!(sym_str_upto(0, 1, b"1a"), rep([".7", "x", "\u{e9}", ".dev"][choice(4)], n), sym_str_upto(0, 1, b"1a"));
    debugged(&parse_ok(&s));
}

// ------------------------------------------------------------------ clones
/// P34: a clone holds the same and answers the same, also when the original is gone
#[no_mangle]
pub extern "C" fn h_p34_version() {
    warm();
    let s = cat!(["", "2!", "abcdefghijklmnopqrstuvwxyz.1234567-"][choice(3)], sym_str_upto(0, param(0), b"019aZ.+-"));
    let t = ["1", "1.9a", "z"][choice(3)].parse::<Version>().unwrap();
    let v = parse_ok(&s);
    let (o, p, q) = (v.compare_version(&t), v.startswith(&t), t.startswith(&v));
    let c = v.clone();
    check(same_parts(&v, &c) && v == c && c.compare_version(&v) == CompOp::Eq, 1);
    drop(v);
    trace(p as u64);
    cover(10 + (o == CompOp::Lt) as u32);
    check(eq_bytes(c.as_str().as_bytes(), s.as_bytes()) && eq_bytes(c.to_string().as_bytes(), s.as_bytes()), 2);
    check(c.compare_version(&t) == o && c.startswith(&t) == p && t.startswith(&c) == q, 3);
    let d = parse_ok(&s);
    check(same_parts(&d, &c), 4);
}
#[no_mangle]
pub extern "C" fn h_p34_part() {
    let p = free_part(param(0), ASCII);
    let c = p.clone();
    check(same_part(&p, &c) && p == c, 1);
    cover(1);
    trace(1);
}
fn answers<S: Spec>(s: &S, w: &mut Vec<bool>) {
    for x in ["0.9", "1", "1.0.1", "2a", "1a", "1+a", "10"].iter() {
        w.push(s.test_match(x));
        w.push(s.test_match_version(&x.parse().unwrap()));
    }
    w.push(s.is_exact());
    w.push(s.exact_value().is_some());
}
/// P34: clones of single and compound specs
#[no_mangle]
pub extern "C" fn h_p34_spec() {
    warm_spec();
    let pre = ["", "==", "!=", "<", ">=", "=", "1.*", "^1", "(2|", "1*,!="][choice(10)];
    let post = ["", ".*", "*", "$", ")", "a"][choice(6)];
    let s = cat!(pre, sym_str_upto(0, param(0), b"019a.+@"), post);
    let a = VersionSpecOrConstraintTree::try_from(s.as_str());
    match a {
        Err(_) => {
            cover(2);
            trace(0)
        }
        Ok(a) => {
            cover(1);
            let c = a.clone();
            check(a == c && c == a, 1);
            let (mut x, mut y) = (vec![], vec![]);
            answers(&a, &mut x);
            let text = a.get_spec();
            drop(a);
            answers(&c, &mut y);
            trace(x.iter().filter(|x| **x).count() as u64);
            check(x == y, 2);
            check(eq_bytes(c.get_spec().as_bytes(), text.as_bytes()) && eq_bytes(c.raw_value().as_bytes(), text.as_bytes()), 3);
        }
    }
}

// ------------------------------------------------------------------ malformed texts where no error can be returned
/// P35: such a call never comes back with an answer
#[no_mangle]
pub extern "C" fn h_p35_text() {
    warm_spec();
    let s = sym_str_upto(1, param(0), b"!+1a.");
    let long = ["", "abcdefghijklmnopqrstuvwxyz.1234567.", "\u{e9}"][choice(3)];
    let s = if choice(2) == 0 { cat!(long, s) } else { cat!(s, long) };
    unanswered(&s);
}
fn unanswered(s: &str) {
    assume(s.parse::<Version>().is_err());
    let v: Version = ["1", "1.0a+b", "0"][choice(3)].parse().unwrap();
    let op = [CompOp::Eq, CompOp::Ne, CompOp::Lt, CompOp::Ge, CompOp::StartsWith, CompOp::NotStartsWith][choice(6)];
    let k = choice(7);
    let spec = VersionSpec::try_from([">=0", "!=1", "1.0", "=1", "!=1.*", "<9"][choice(6)]).unwrap();
    let tree = treeify(["1|2", ">1,<3", "(1|2),3*"][choice(3)]).unwrap();
    cover(1 + k as u32);
    trace(k as u64);
    panicking(|| {
        let _r = match k {
            0 => Version::from(s).part_count() as u64,
            1 => v.compare_str(s) as u64,
            2 => v.compare_to_str(s, &op) as u64,
            3 => spec.test_match(s) as u64,
            4 => tree.test_match(s) as u64,
            5 => VersionSpecOrConstraintTree::from(spec).test_match(s) as u64,
            _ => VersionSpecOrConstraintTree::from(tree).test_match(s) as u64,
        };
        check(false, 1);
    });
}

// ------------------------------------------------------------------ structural form
fn js(s: &str) -> String {
    let mut t = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            t.push('\\');
        }
        t.push(c);
    }
    t.push('"');
    t
}
/// P36: a version read from its structural form holds exactly that
#[no_mangle]
pub extern "C" fn h_p36_read() {
    warm();
    let text = sym_str_upto(0, param(0), b"019aZ.+! \"\\");
    let n = choice(param(1) + 1);
    let mut parts = vec![];
    let mut doc = String::from("[");
    for i in 0..n {
        if i > 0 {
            doc.push(',');
        }
        match choice(5) {
            0 => {
                let d = sym_str(1, b"123456789");
                let w = (d.as_bytes()[0] - b'0') as i16;
                doc = cat!(doc, "{\"Epoch\":", d, "}");
                parts.push(VersionPart::Epoch(w));
            }
            1 => {
                let d = sym_str(1, DIGITS);
                let neg = choice(2) == 1;
                let w = 214748364 * 10 + (d.as_bytes()[0] - b'0') as i64;
                let w = if neg { -w } else { w };
                assume(w >= i32::MIN as i64 && w <= i32::MAX as i64);
                doc = cat!(doc, "{\"Integer\":", ["", "-"][neg as usize], "214748364", d, "}");
                parts.push(VersionPart::Integer(w as i32));
            }
            2 => {
                let t = sym_str_upto(0, 1, b"09aZ.+! \"\\");
                doc = cat!(doc, "{\"LexicographicString\":", js(&t), "}");
                parts.push(VersionPart::LexicographicString(t));
            }
            3 => {
                let t = sym_str_upto(0, 1, b"09aZ.+! \"\\");
                doc = cat!(doc, "{\"PEP440String\":{\"alpha\":", js(&t), "}}");
                parts.push(pep(&t));
            }
            _ => {
                doc.push_str("\"Empty\"");
                parts.push(VersionPart::Empty);
            }
        }
    }
    doc.push(']');
    let doc = match choice(3) {
        0 => cat!("{\"version\":", js(&text), ",\"parts\":", doc, "}"),
        1 => cat!("{\"parts\":", doc, ",\"version\":", js(&text), "}"),
        _ => cat!("{\"x\":null,\"version\":", js(&text), ",\"parts\":", doc, ",\"y\":[1]}"),
    };
    match serde_json::from_str::<Version>(&doc) {
        Err(_) => check(false, 1),
        Ok(v) => {
            cover(1);
            trace(v.part_count() as u64);
            check(eq_bytes(v.as_str().as_bytes(), text.as_bytes()), 2);
            check(v.part_count() == n, 3);
            for i in 0..n {
                check(same_part(&v.parts()[i], &parts[i]), 4);
            }
        }
    }
}
/// P36: anything else is an error, never a panic
#[no_mangle]
pub extern "C" fn h_p36_bad() {
    warm();
    let good = "{\"version\":\"1a\",\"parts\":[{\"Integer\":1},{\"PEP440String\":{\"alpha\":\"a\"}},\"Empty\",{\"Epoch\":2},{\"LexicographicString\":\"x\"}]}";
    match choice(3) {
        0 => {
            let cut = choice(good.len());
            check(serde_json::from_str::<Version>(&good[..cut]).is_err(), 1);
            cover(1);
            trace(1);
        }
        1 => {
            let bad = [
                "{\"version\":\"1\"}",
                "{\"parts\":[]}",
                "{\"version\":1,\"parts\":[]}",
                "{\"version\":\"1\",\"parts\":{}}",
                "{\"version\":\"1\",\"parts\":[{\"Epoch\":32768}]}",
                "{\"version\":\"1\",\"parts\":[{\"Epoch\":-32769}]}",
                "{\"version\":\"1\",\"parts\":[{\"Integer\":2147483648}]}",
                "{\"version\":\"1\",\"parts\":[{\"Integer\":-2147483649}]}",
                "{\"version\":\"1\",\"parts\":[{\"Integer\":\"1\"}]}",
                "{\"version\":\"1\",\"parts\":[{\"Number\":1}]}",
                "{\"version\":\"1\",\"parts\":[\"Integer\"]}",
                "{\"version\":\"1\",\"parts\":[{\"PEP440String\":{}}]}",
                "{\"version\":\"1\",\"parts\":[{\"PEP440String\":{\"alpha\":1}}]}",
                "{\"version\":\"1\",\"version\":\"2\",\"parts\":[]}",
                "null",
                "",
            ];
            check(serde_json::from_str::<Version>(bad[choice(bad.len())]).is_err(), 2);
            cover(2);
            trace(2);
        }
        _ => {
            let at = choice(good.len());
            let mut b = good.as_bytes().to_vec();
            b[at] = u8_in(b"\"{}[]:,0a\\ ");
            let s = String::from_utf8(b).unwrap();
            let r = serde_json::from_str::<Version>(&s).is_ok();
            trace(r as u64);
            cover(3);
        }
    }
}
