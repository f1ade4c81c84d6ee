//! The Python class over the real library.
use crate::cat;
use crate::gen::*;
use crate::oracle::*;
use crate::python_interface::RustyVersion;
use crate::rt::*;
use cpython::{python, CompareOp};
use ronda::*;
use std::cmp::Ordering;

fn new(s: &str) -> RustyVersion {
    match RustyVersion::__new__(python(), s) {
        Ok(v) => v,
        Err(_) => {
            check(false, 900);
            unreachable!()
        }
    }
}
fn agree(s: &str, t: &str) {
    let (v, w) = (parse_ok(s), parse_ok(t));
    let (a, b) = (new(s), new(t));
    let o = match v.compare_version(&w) {
        CompOp::Lt => Ordering::Less,
        CompOp::Eq => Ordering::Equal,
        CompOp::Gt => Ordering::Greater,
        _ => unreachable!(),
    };
    trace(ord_code(o));
    cover(1 + ord_code(o) as u32);
    let want = [o == Ordering::Less, o != Ordering::Greater, o == Ordering::Equal, o != Ordering::Equal, o == Ordering::Greater, o != Ordering::Less];
    const OPS: [CompareOp; 6] = [CompareOp::Lt, CompareOp::Le, CompareOp::Eq, CompareOp::Ne, CompareOp::Gt, CompareOp::Ge];
    for i in 0..6 {
        match a.__richcmp__(python(), &b, OPS[i]) {
            Ok(r) => check(r == want[i], 10 + i as u32),
            Err(_) => check(false, 20 + i as u32),
        }
    }
    match a.startswith(python(), &b) {
        Ok(r) => check(r == ref_startswith(&v, &w), 30),
        Err(_) => check(false, 31),
    }
    match a.__repr__(python()) {
        Ok(r) => check(eq_bytes(r.as_bytes(), s.as_bytes()), 32),
        Err(_) => check(false, 33),
    }
}
/// P27: pairs of short texts
#[no_mangle]
pub extern "C" fn h_p27_text() {
    warm();
    let al: &[u8] = b"019aZ.+-!";
    let s = sym_str_upto(0, param(0), al);
    let t = sym_str_upto(0, param(0), al);
    agree(&s, &t);
}
/// P27: structured pairs
#[no_mangle]
pub extern "C" fn h_p27_struct() {
    warm();
    let s = cat!(["", "1!"][choice(2)], dotted(1, param(0)), ["", "+l"][choice(2)]);
    let t = ["1", "1.0a", "1!2.post", "2.9+x", "0.dev", "1.a.0"][choice(6)];
    if choice(2) == 0 {
        agree(&s, t)
    } else {
        agree(t, &s)
    }
}
/// P27: any text as the Python text of a version
#[no_mangle]
pub extern "C" fn h_p27_any() {
    warm();
    let s = sym_str_upto(0, param(0), ASCII);
    agree(&s, "1.5");
}

fn create(s: &str) {
    let want = ref_parse(s).is_some();
    let r = RustyVersion::__new__(python(), s);
    trace(r.is_ok() as u64);
    cover(1 + want as u32);
    check(r.is_ok() == want, 1);
    if let Ok(v) = r {
        match v.__repr__(python()) {
            Ok(t) => check(eq_bytes(t.as_bytes(), s.as_bytes()), 2),
            Err(_) => check(false, 3),
        }
        match v.startswith(python(), &v) {
            Ok(t) => check(t, 4),
            Err(_) => check(false, 5),
        }
    }
}
/// P29: any ASCII text given from Python is a version or an error
#[no_mangle]
pub extern "C" fn h_p29_ascii() {
    warm();
    let s = sym_str_upto(0, param(0), ASCII);
    create(&s);
}
/// P29: the bytes that decide, longer
#[no_mangle]
pub extern "C" fn h_p29_class() {
    warm();
    let s = sym_str_upto(0, param(0), b"09a.+!- ");
    create(&s);
}
/// P29: markers anywhere in longer texts
#[no_mangle]
pub extern "C" fn h_p29_markers() {
    warm();
    let base = ["1.2.3.4", "0012.a", "32767", "1.0rc1.post2"][choice(4)];
    let n = 1 + choice(param(0));
    let mut s = base.to_string();
    for _ in 0..n {
        let at = choice(s.len() + 1);
        s = cat!(&s[..at], sym_str(1, b"!+"), &s[at..]);
    }
    create(&s);
}
fn rep(u: &str, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(u);
    }
    s
}
const SIZES: [usize; 8] = [0, 2, 17, 65, 300, 33, 130, 9];
/// prefix, repeated piece, symbolic tail
fn long_text(tail: &[u8]) -> String {
    let u = ["a", ".1", "-", "1a", "\u{e9}", "0", "_dev", "\u{20ac}."][choice(8)];
    cat!(["", "1", "2!1."][choice(3)], rep(u, SIZES[choice(param(0))]), sym_str_upto(0, 1, tail))
}
#[no_mangle]
pub extern "C" fn h_p29_size() {
    warm();
    let s = long_text(b"09aA._-+! ");
    create(&match choice(3) {
        0 => s,
        1 => cat!(sym_str(1, b"+!1"), s),
        _ => cat!(s, "+x", sym_str(1, b"+!1")),
    });
}
/// P29: one object after another, rejected ones in between
#[no_mangle]
pub extern "C" fn h_p29_again() {
    warm();
    let p = ["", "1.2.3.4-abcdefghijklmnopqrstuvw"][choice(2)];
    let g = || cat!(p, sym_str_upto(0, param(0), b"09a.+!"));
    let (a, b) = (g(), g());
    create(&a);
    create(&b);
    create(&a);
}
/// P27: long texts that differ in a symbolic tail or head
#[no_mangle]
pub extern "C" fn h_p27_size() {
    warm();
    let u = [".1", "-a", ".0", "x", "_post2"][choice(5)];
    let c = rep(u, SIZES[choice(param(0))]);
    let t = || sym_str_upto(0, 1, b"09aZ.");
    if choice(2) == 0 {
        agree(&cat!("1", c, t()), &cat!("1", c, t()))
    } else {
        agree(&cat!(t(), c), &cat!(t(), c))
    }
}
/// P27: questions asked again in another order
#[no_mangle]
pub extern "C" fn h_p27_again() {
    warm();
    let g = || sym_str_upto(0, param(0), b"09aZ.");
    let (a, b) = (g(), g());
    agree(&a, &b);
    agree(&b, &a);
    agree(&a, "1.a");
    agree(&a, &b);
}
