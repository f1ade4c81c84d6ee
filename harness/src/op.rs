//! Comparison operators.
use crate::gen::*;
use crate::oracle::*;
use crate::rt::*;
use ronda::*;
use std::cmp::Ordering;

pub const ALL: [CompOp; 10] = [
    CompOp::Eq,
    CompOp::Ne,
    CompOp::Lt,
    CompOp::Le,
    CompOp::Ge,
    CompOp::Gt,
    CompOp::StartsWith,
    CompOp::NotStartsWith,
    CompOp::Compatible,
    CompOp::Incompatible,
];
fn ix(o: CompOp) -> usize {
    match o {
        CompOp::Eq => 0,
        CompOp::Ne => 1,
        CompOp::Lt => 2,
        CompOp::Le => 3,
        CompOp::Ge => 4,
        CompOp::Gt => 5,
        CompOp::StartsWith => 6,
        CompOp::NotStartsWith => 7,
        CompOp::Compatible => 8,
        CompOp::Incompatible => 9,
    }
}
/// P14: inverting negates, flipping swaps operands
pub fn algebra(a: &Version, b: &Version) {
    let k = choice(8);
    let op = ALL[k];
    let r = a.compare_to_version(b, &op);
    trace(r as u64);
    cover(1 + r as u32);
    check(a.compare_to_version(b, &op.invert()) == !r, 1);
    check(a.compare_to_version(b, &op.as_inverted()) == !r, 2);
    check(ix(op.invert().invert()) == k, 3);
    if k < 6 {
        check(b.compare_to_version(a, &op.flip()) == r, 4);
        check(b.compare_to_version(a, &op.as_flipped()) == r, 5);
    }
    check(ix(op.flip().flip()) == k, 6);
    check(ix(op.opposite().opposite()) == k, 7);
    check(ix(op.as_opposite()) == ix(op.opposite()), 8);
    let o = a.compare_version(b);
    if let Some(r) = o.ord() {
        check(ix(CompOp::from_ord(r)) == ix(o), 9);
        check(o.factor() as i64 == ord_code(r) as i64 - 1, 10);
        check(a.partial_cmp(b) == Some(r), 11);
        check(a.compare_to_version(b, &o), 12);
    } else {
        check(false, 13);
    }
}
#[no_mangle]
pub extern "C" fn h_p14_parts() {
    warm();
    let a = mk(any_parts(0, param(0), true, true));
    let b = mk(any_parts(0, param(0), true, true));
    algebra(&a, &b);
}
#[no_mangle]
pub extern "C" fn h_p14_text() {
    warm();
    let al: &[u8] = b"019aZ.";
    let a = parse_ok(&sym_str_upto(0, param(0), al));
    let b = parse_ok(&sym_str_upto(0, param(0), al));
    algebra(&a, &b);
}
/// P14: tables of every operator
#[no_mangle]
pub extern "C" fn h_p14_table() {
    let k = choice(10);
    let op = ALL[k];
    const INV: [usize; 10] = [1, 0, 4, 5, 2, 3, 7, 6, 9, 8];
    const OPP: [usize; 10] = [1, 0, 5, 4, 3, 2, 7, 6, 9, 8];
    const FLIP: [usize; 10] = [0, 1, 5, 4, 3, 2, 6, 7, 8, 9];
    cover(1);
    check(ix(op.invert()) == INV[k] && ix(op.as_inverted()) == INV[k], 1);
    check(ix(op.opposite()) == OPP[k] && ix(op.as_opposite()) == OPP[k], 2);
    check(ix(op.flip()) == FLIP[k] && ix(op.as_flipped()) == FLIP[k], 3);
    let f: [i8; 10] = [0, 0, -1, -1, 1, 1, 0, 0, 0, 0];
    check(op.factor() == f[k], 4);
    let o = [Some(Ordering::Equal), None, Some(Ordering::Less), None, None, Some(Ordering::Greater), None, None, None, None];
    check(op.ord() == o[k], 5);
    trace(k as u64);
}

pub const SIGNS: [&str; 10] = ["==", "!=", "<", "<=", ">=", ">", "=", "!=startswith", "~=", "!~="];
pub const NAMES: [&str; 10] = ["eq", "ne", "lt", "le", "ge", "gt", "startswith", "notstartswith", "compatible", "incompatible"];
fn is_ws(c: u8) -> bool { c == 32 || (c >= 9 && c <= 13) }
fn trim(s: &[u8]) -> &[u8] {
    let (mut i, mut j) = (0, s.len());
    while i < j && is_ws(s[i]) {
        i += 1;
    }
    while j > i && is_ws(s[j - 1]) {
        j -= 1;
    }
    &s[i..j]
}
fn lookup(t: &[u8], table: &[&str; 10], ci: bool) -> Option<usize> {
    for k in 0..10 {
        let w = table[k].as_bytes();
        if w.len() == t.len() && (0..w.len()).all(|i| if ci { lower(t[i]) == w[i] } else { t[i] == w[i] }) {
            return Some(k);
        }
    }
    None
}
pub fn sign(s: &str) {
    let want = lookup(trim(s.as_bytes()), &SIGNS, false);
    let got = CompOp::from_sign(s).ok().map(ix);
    trace(got.unwrap_or(99) as u64);
    cover(1 + want.is_some() as u32);
    check(want == got, 1);
}
pub fn name(s: &str) {
    let want = lookup(trim(s.as_bytes()), &NAMES, true);
    let got = CompOp::from_name(s).ok().map(ix);
    trace(got.unwrap_or(99) as u64);
    cover(1 + want.is_some() as u32);
    check(want == got, 2);
}
/// P15: any ASCII text as sign / name
#[no_mangle]
pub extern "C" fn h_p15_sign() {
    let s = sym_str_upto(0, param(0), ASCII);
    sign(&s);
}
#[no_mangle]
pub extern "C" fn h_p15_name() {
    let s = sym_str_upto(0, param(0), ASCII);
    name(&s);
}
/// P15: every table entry with symbolic padding, letter case and one symbolic substitution
#[no_mangle]
pub extern "C" fn h_p15_near() {
    let k = choice(10);
    let l = sym_str_upto(0, 2, b" \t\n\r");
    let r = sym_str_upto(0, 2, b" \t\n\r");
    let use_name = choice(2) == 1;
    let w = if use_name { NAMES[k] } else { SIGNS[k] };
    let mut b = w.as_bytes().to_vec();
    match choice(4) {
        0 => {}
        1 => {
            let at = choice(b.len());
            b[at] = u8_in(ASCII);
        }
        2 => {
            if use_name {
                for c in b.iter_mut() {
                    *c = u8_in(&[*c, *c - 32]);
                }
            } else {
                let at = choice(b.len() + 1);
                b.insert(at, u8_in(ASCII));
            }
        }
        _ => {
            let at = choice(b.len());
            b.remove(at);
        }
    }
    let s = crate::cat!(l, unsafe { String::from_utf8_unchecked(b) }, r);
    if use_name {
        name(&s)
    } else {
        sign(&s)
    }
}
/// P15: sign() and name() are read back as the same operator
#[no_mangle]
pub extern "C" fn h_p15_round() {
    let k = choice(10);
    let op = ALL[k];
    cover(1);
    check(eq_bytes(op.sign().trim().as_bytes(), SIGNS[k].as_bytes()), 3);
    check(eq_bytes(op.name().as_bytes(), NAMES[k].as_bytes()), 4);
    check(CompOp::from_sign(op.sign()).ok().map(ix) == Some(k), 5);
    check(CompOp::from_name(op.name()).ok().map(ix) == Some(k), 6);
    trace(k as u64);
}
