//! Long inputs: a piece repeated up to a few hundred times (so any cap, cut, counter or narrow index
//! is passed) with symbolic bytes where they decide.
use crate::cat;
use crate::gen::*;
use crate::oracle::*;
use crate::rt::*;
use crate::spec::{exactness, matches, operator, spec_ok, spec_total, wild};
use crate::tree::{one, ref_eval, roundtrip, semantics};
use crate::ver::*;
use ronda::verif_hooks::Spec;
use ronda::*;
use std::convert::TryFrom;

const SIZES: [usize; 20] = [0, 1, 2, 3, 65, 300, 17, 33, 9, 130, 5, 12, 7, 25, 24, 49, 64, 100, 128, 257];
/// A size out of the first `param(0)` of the list (at most `max`).
fn size(max: usize) -> usize {
    let k = param(0);
    let n = SIZES[choice(if k > SIZES.len() { SIZES.len() } else { k })];
    assume(n <= max);
    n
}
pub fn rep(u: &str, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(u);
    }
    s
}
const UNITS: [&str; 12] = ["a", ".1", "-", "1a", "\u{e9}", "0", "post", "Z.", "_dev", ".0", "\u{20ac}", "7x-"];
const TAIL: &[u8] = b"09azAZ._-+! ";
/// prefix, repeated piece, symbolic tail
fn long_text() -> String {
    let pre = ["", "1", "2!1.", "b+"][choice(4)];
    let u = UNITS[choice(12)];
    cat!(pre, rep(u, size(400)), sym_str_upto(0, 1, TAIL))
}
#[no_mangle]
pub extern "C" fn h_p01_size() {
    warm();
    let s = long_text();
    total(&s);
}
#[no_mangle]
pub extern "C" fn h_p02_size() {
    warm();
    let s = long_text();
    verbatim(&s);
}
#[no_mangle]
pub extern "C" fn h_p03_size() {
    warm();
    let s = long_text();
    decomp(&s);
}
#[no_mangle]
pub extern "C" fn h_p04_size() {
    warm();
    let s = long_text();
    let s = match choice(3) {
        0 => s,
        1 => cat!(sym_str(1, b"+!1"), s),
        _ => cat!(s, "+x", sym_str(1, b"+!1")),
    };
    accept(&s);
}
/// P04: digits and markers around long runs of zeros
#[no_mangle]
pub extern "C" fn h_p04_zeros() {
    warm();
    let s = cat!(rep("0", size(400)), sym_str_upto(0, 1, DIGITS), ["!", "!!", "!1", "+", "+!", ""][choice(6)]);
    accept(&s);
}
#[no_mangle]
pub extern "C" fn h_p05_size() {
    warm();
    let u = ["1", "a", "post1", "3b"][choice(4)];
    let n = size(300);
    let (mut a, mut b) = (String::new(), String::new());
    let (p, q) = (sym_str(1, b"._-"), sym_str(1, b"._-"));
    for i in 0..n {
        if i > 0 {
            a.push_str(if i + 1 == n { &p } else { "." });
            b.push_str(if i == 1 { &q } else { ["-", "_", "..", "__", "."][i % 5] });
        }
        a.push_str(u);
        b.push_str(u);
    }
    let lead = rep(["", ".", "-_"][choice(3)], size(300));
    match choice(2) {
        0 => sep_same(&cat!(a, lead, "+a.b"), &cat!(b, "+a.b")),
        _ => sep_same(&cat!("2!", lead, a), &cat!("2!", b)),
    }
}
/// Two versions: a common long prefix, then two short symbolic tails.
fn long_pair() -> (Version, Version, String) {
    let pre = ["1", "2!a", "post.3"][choice(3)];
    let u = [".1", "-a", "_dev", ".0", "b2", "x"][choice(6)];
    let c = cat!(pre, rep(u, size(300)));
    let t = |k: usize| -> String { if k == 0 { String::new() } else { cat!(["", "."][k - 1], sym_str(1, b"019aZ+")) } };
    let a = cat!(c, t(choice(3)));
    let b = cat!(c, t(choice(3)));
    (parse_ok(&a), parse_ok(&b), b)
}
#[no_mangle]
pub extern "C" fn h_p06_size() {
    warm();
    let (x, y, b) = long_pair();
    consistent_str(&x, &y, &b);
}
#[no_mangle]
pub extern "C" fn h_p39_size() {
    warm();
    let (x, y, _) = long_pair();
    first_decides(&x, &y);
}
/// P39: one symbolic component anywhere in two long versions of different lengths
#[no_mangle]
pub extern "C" fn h_p39_first() {
    warm();
    let (n, m) = (size(300), size(300));
    let at = [0, n / 2, n][choice(3)];
    let g = |n: usize| cat!(rep("2.", if at < n { at } else { n }), sym_str(1, b"019aZ"), rep(".2", if at < n { n - at } else { 0 }));
    first_decides(&parse_ok(&g(n)), &parse_ok(&g(m)));
}
/// P06/P13: one symbolic component at the start of two long versions of different lengths
#[no_mangle]
pub extern "C" fn h_p06_first() {
    warm();
    let (n, m) = (size(300), size(300));
    let a = cat!(sym_str(1, b"019aZ"), rep(".2", n));
    let b = cat!(sym_str(1, b"019aZ"), rep(".2", m));
    consistent_str(&parse_ok(&a), &parse_ok(&b), &b);
}
#[no_mangle]
pub extern "C" fn h_p07_size() {
    warm();
    let pre = ["1", "2!a"][choice(2)];
    let u = [".1", "-a", ".0"][choice(3)];
    let n = size(300);
    let c = cat!(pre, rep(u, n));
    let t = || -> String {
        match choice(3) {
            0 => String::new(),
            1 => cat!(".", sym_str(1, b"12aZ")),
            _ => rep(".0", 1 + n % 3),
        }
    };
    transitive(&parse_ok(&cat!(c, t())), &parse_ok(&cat!(c, t())), &parse_ok(&cat!(c, t())));
}
/// P08: long dotted numbers that differ at one symbolic place
#[no_mangle]
pub extern "C" fn h_p08_size() {
    warm();
    let n = 1 + size(300);
    let at = [0, n / 2, n - 1][choice(3)];
    let (d, e) = (u32_any(), u32_any());
    assume(d <= i32::MAX as u32 && e <= i32::MAX as u32);
    let (mut v, mut w, mut x, mut y) = (vec![], vec![], vec![], vec![]);
    let fill = choice(2) as i32;
    for i in 0..n {
        let (p, q) = if i == at { (d, e) } else { (fill as u32, fill as u32) };
        v.push(VersionPart::Integer(p as i32));
        w.push(VersionPart::Integer(q as i32));
        x.push(p as u64);
        y.push(q as u64);
    }
    // and one of them goes on
    let m = [0, 1, 60][choice(3)];
    let g = u8_in(b"\x00\x01\x09") as u32;
    for i in 0..m {
        let z = if i + 1 == m { g } else { 0 };
        w.push(VersionPart::Integer(z as i32));
        y.push(z as u64);
    }
    num_check(&mk(v), &mk(w), num_cmp(&x, &y));
}
/// P08: many leading zeros
#[no_mangle]
pub extern "C" fn h_p08_lead() {
    warm();
    let z = size(300);
    let (d, e) = (sym_str(1, DIGITS), sym_str(1, DIGITS));
    let val = |s: &str| (s.as_bytes()[0] - b'0') as u64;
    let pre = ["", "3."][choice(2)];
    let mut x = if pre.is_empty() { vec![] } else { vec![3] };
    let mut y = x.clone();
    x.push(val(&d));
    y.push(val(&e));
    num_check(&parse_ok(&cat!(pre, rep("0", z), d)), &parse_ok(&cat!(pre, e)), num_cmp(&x, &y));
}
/// P09: phases after long releases, and phase words deep inside long words
#[no_mangle]
pub extern "C" fn h_p09_size() {
    warm();
    const W: [&str; 7] = ["dev", "pOSt", "a", "", "de", "Z", "devpost"];
    let n = size(300);
    let (i, j) = (choice(7), choice(7));
    match choice(3) {
        0 => phase(&cat!("1", rep(".3", n)), W[i], W[j], "", "-"),
        1 => phase("1.2", &cat!(rep("x", n), W[i], sym_str_upto(0, 1, b"aeptvz")), &cat!(rep("x", n), W[j]), "", "."),
        _ => phase("1.2", &cat!(W[i], rep("x", n)), &cat!(W[j], rep("y", n)), "_", "."),
    }
}
/// P10: long tails never outweigh the epoch
#[no_mangle]
pub extern "C" fn h_p10_size() {
    warm();
    let (e, f) = (sym_str(1, b"0129"), sym_str(1, b"0129"));
    let u = [".9", "post", "_dev", ".0"][choice(4)];
    let (n, m) = (size(300), size(300));
    let (s, t) = (cat!("7", rep(u, n)), cat!("7", rep(u, m)));
    let (a, b) = (parse_ok(&cat!(e, "!", s)), parse_ok(&cat!(f, "!", t)));
    let o = e.as_bytes()[0].cmp(&f.as_bytes()[0]);
    trace(ord_code(o));
    if o == std::cmp::Ordering::Equal {
        cover(1);
        check(ordering(&a, &b, 1) == ordering(&parse_ok(&s), &parse_ok(&t), 1), 2);
    } else {
        cover(2);
        check(ordering(&a, &b, 1) == o, 3);
    }
}
fn swap_case(s: &str) -> String {
    let v: Vec<u8> = s.bytes().map(|c| if (c | 32) >= b'a' && (c | 32) <= b'z' { c ^ 32 } else { c }).collect();
    unsafe { String::from_utf8_unchecked(v) }
}
#[no_mangle]
pub extern "C" fn h_p11_size() {
    warm();
    let u = ["a", "Q", "xY.", "Dev", "post1.", ".1b"][choice(6)];
    let s = cat!("1", rep(u, size(300)), sym_str(1, LETTERS));
    let m = match choice(3) {
        0 => swap_case(&s),
        1 => cat!(&s[..s.len() - 1], swap_case(&s[s.len() - 1..])),
        _ => cat!(swap_case(&s[..s.len() / 2]), &s[s.len() / 2..]),
    };
    let other = cat!(&s[..s.len() - 1], sym_str(1, b"bMz"));
    case_same(&s, &m, &other);
}
/// P12: long labels, and labels after long public versions
#[no_mangle]
pub extern "C" fn h_p12_size() {
    warm();
    let u = ["a", "Z", "1", ".", "-0", "\u{e9}"][choice(6)];
    let (p, q) = (sym_str_upto(0, 1, b"019azAZ._-~"), sym_str_upto(0, 1, b"019azAZ._-~"));
    let n = size(300);
    let (x, y) = match choice(3) {
        0 => (cat!(rep(u, n), p), cat!(rep(u, n), q)),
        1 => (cat!(p, rep(u, n)), cat!(q, rep(u, n))),
        _ => (cat!(rep(u, n), p, "tail"), cat!(rep(u, n), q, "tail")),
    };
    let w = cat!("1", if choice(2) == 0 { String::new() } else { rep(".4", n) }, "+");
    let (a, b) = (parse_ok(&cat!(w, x)), parse_ok(&cat!(w, y)));
    let o = cmp_bytes(x.as_bytes(), y.as_bytes());
    trace(ord_code(o));
    cover(1 + ord_code(o) as u32);
    check(ordering(&a, &b, 1) == o, 2);
    check(ordering(&b, &a, 1) == o.reverse(), 3);
    check((a == b) == (o == std::cmp::Ordering::Equal), 4);
}
#[no_mangle]
pub extern "C" fn h_p13_size() {
    warm();
    let (x, y, _) = long_pair();
    sw(&x, &y);
    sw(&y, &x);
    let z = parse_ok(&cat!(x.as_str(), ".9"));
    sw(&z, &y);
}
#[no_mangle]
pub extern "C" fn h_p13_first() {
    warm();
    let (n, m) = (size(300), size(300));
    let a = cat!(sym_str(1, b"01aA"), rep(".2", n));
    let b = cat!(sym_str(1, b"01aA"), rep("-2", m));
    sw(&parse_ok(&a), &parse_ok(&b));
}
#[no_mangle]
pub extern "C" fn h_p14_size() {
    warm();
    let (x, y, _) = long_pair();
    crate::op::algebra(&x, &y);
}
/// P15: long padding and long texts
#[no_mangle]
pub extern "C" fn h_p15_size() {
    let k = choice(11);
    let n = size(300);
    let ws = [" ", "\t", "\n", "\u{b}", " \r"][choice(5)];
    let named = choice(2) == 1;
    let w = if k == 10 { rep(if named { "eq" } else { "=" }, n) } else if named { crate::op::NAMES[k].to_string() } else { crate::op::SIGNS[k].to_string() };
    let s = match choice(3) {
        0 => cat!(rep(ws, n), w, sym_str_upto(0, 1, ASCII)),
        1 => cat!(w, rep(ws, n), sym_str_upto(0, 1, b" =<se\0")),
        _ => cat!(rep(ws, n), w, rep(ws, n)),
    };
    if named {
        crate::op::name(&s)
    } else {
        crate::op::sign(&s)
    }
}
/// long operand, version that agrees but for a symbolic tail
fn operands() -> (String, String) {
    let u = [".1", "-a", "b2", "x", ".0"][choice(5)];
    let c = cat!("1", rep(u, size(300)));
    let v = match choice(2) {
        0 => c.clone(),
        _ => cat!(c, ".", sym_str(1, b"019aZ")),
    };
    let x = match choice(3) {
        0 => c,
        1 => cat!(c, sym_str(1, b"019aZ")),
        _ => cat!(c, ".", sym_str(1, b"019aZ"), ".4"),
    };
    (v, x)
}
#[no_mangle]
pub extern "C" fn h_p16_size() {
    warm_spec();
    let (v, x) = operands();
    operator(&v, &x);
}
#[no_mangle]
pub extern "C" fn h_p17_size() {
    warm_spec();
    let (v, x) = operands();
    wild(&v, &x);
}
#[no_mangle]
pub extern "C" fn h_p18_size() {
    warm_spec();
    const SIG: [&str; 10] = ["", "==", "=", "!=", "<", ">=", "~=", "!", "=<", "~"];
    let u = ["1", ".", ".1", "a", "*", "=", "@", "\u{e9}", "1*", ".*"][choice(10)];
    let s = cat!(SIG[choice(10)], rep(u, size(300)), sym_str_upto(0, 1, b"1.*=!+ \n@a$"), ["", ".*"][choice(2)]);
    if s.is_ascii() {
        spec_total(&s);
    } else {
        let r = ronda::verif_hooks::VersionSpec::try_from(s.as_str());
        trace(r.is_ok() as u64);
        cover(1 + r.is_ok() as u32);
    }
}
/// P19: long literals and many wildcards
#[no_mangle]
pub extern "C" fn h_p19_size() {
    warm_spec();
    let n = size(66);
    let u = ["1.", "a", "b2"][choice(3)];
    let (p, t) = match choice(3) {
        0 => (cat!("1*", rep(u, n), sym_str(1, b"12")), cat!("1", ["", "77", "0."][choice(3)], rep(u, n), sym_str(1, b"12"))),
        1 => (cat!(rep("a*", n), "*", sym_str(1, b"12")), cat!(rep("a.", n), sym_str_upto(0, 2, b"12"))),
        _ => (cat!(rep(u, n), sym_str(1, b"1."), "*9"), cat!(rep(u, n), sym_str(1, b"1."), rep("8", n), "9")),
    };
    let core = p.trim_end_matches('*');
    assume(core.contains('*'));
    matches(&p, &t, glob(p.as_bytes(), t.as_bytes()), 10);
}
#[no_mangle]
pub extern "C" fn h_p20_size() {
    warm_spec();
    const SIG: [&str; 6] = ["", "==", "=", "!=", "<", ">="];
    let u = ["1", ".1", "a", "@", "\u{e9}", "1*"][choice(6)];
    let s = cat!(SIG[choice(6)], "1", rep(u, size(300)), sym_str_upto(0, 1, b"1.*=+ @a$"));
    exactness(&s);
}
/// P20: long texts with '@'
#[no_mangle]
pub extern "C" fn h_p20_long() {
    warm_spec();
    let b = rep(["ab", "@", "1."][choice(3)], size(300));
    let p = cat!(b, sym_str(1, b"@aA1"), "@", b);
    let t = match choice(3) {
        0 => cat!(b, sym_str(1, b"@aA1"), "@", b),
        1 => cat!(b, "a@", b, sym_str_upto(0, 1, b"a.")),
        _ => b.clone(),
    };
    matches(&p, &t, eq_bytes(p.as_bytes(), t.as_bytes()), 10);
}

/// A wide expression: n members joined by one combinator, all alike but one, in a context.
fn wide(values: bool) -> String {
    let pick = |k: usize| if values { choice(k) } else { 0 };
    let n = 1 + size(66);
    let (hit, rest) = [("1", "9"), ("9", "1")][pick(2)];
    let at = [0, n - 1, n / 2, n - n / 4 - 1][pick(4)];
    let op = [",", "|"][choice(2)];
    let mut m = String::new();
    for i in 0..n {
        if i > 0 {
            m.push_str(op);
        }
        m.push_str(if i == at { hit } else { rest });
    }
    let w = ["1", "9"][pick(2)];
    match choice(9) {
        0 => m,
        1 => cat!("(", m, "),", w),
        2 => cat!(w, ",(", m, ")"),
        3 => cat!("(", m, ")|", w),
        4 => cat!(w, "|(", m, ")"),
        5 => cat!("((", m, "))"),
        6 => cat!("(", m, "),(", m, ")"),
        7 => cat!("1,(", m, "),", w),
        _ => cat!("9|((", m, "),", w, ")"),
    }
}
/// An expression nested n deep, alternating, with symbolic choice of every kind of step.
fn deep(values: bool) -> String {
    let pick = |k: usize| if values { choice(k) } else { 0 };
    let n = size(66);
    let k = choice(6);
    let mut s = ["1", "9"][pick(2)].to_string();
    let x = ["1", "9"][pick(2)];
    for i in 0..n {
        s = match (k, i % 2) {
            (0, 0) | (3, 1) => cat!("(", s, "|", x, ")"),
            (0, _) | (1, 0) => cat!("(", s, ",", x, ")"),
            (1, _) => cat!("(1,", s, ")"),
            (2, 0) => cat!("(9|", s, ")"),
            (2, _) => cat!("(1,(", s, "))"),
            (3, _) => cat!("(", s, "),1"),
            (4, 0) => cat!("1,(", s, ")|", x),
            (4, _) => cat!("9|(", s, "),1"),
            _ => cat!("((", s, "))"),
        };
    }
    s
}
#[no_mangle]
pub extern "C" fn h_p21_wide() {
    warm_spec();
    let s = wide(true);
    semantics(&s);
}
#[no_mangle]
pub extern "C" fn h_p21_deep() {
    warm_spec();
    let s = deep(true);
    semantics(&s);
}
/// P22: a defect somewhere in a wide or deep expression
#[no_mangle]
pub extern "C" fn h_p22_size() {
    warm_spec();
    let b = if choice(2) == 0 { wide(false) } else { deep(false) };
    let at = [0, b.len() / 3, b.len() / 2, b.len()][choice(4)];
    let s = match choice(3) {
        0 => cat!(&b[..at], sym_str_upto(0, 1, b"()|,1 <"), &b[at..]),
        1 if at < b.len() => cat!(&b[..at], &b[at + 1..]),
        _ => cat!(b, sym_str(1, b"()|,! ")),
    };
    crate::tree::accept(&s);
}
#[no_mangle]
pub extern "C" fn h_p23_wide() {
    warm_spec();
    let s = wide(true);
    roundtrip(&s);
}
#[no_mangle]
pub extern "C" fn h_p23_deep() {
    warm_spec();
    let s = deep(true);
    roundtrip(&s);
}
/// Wide nodes in every position of a tree built by hand.
fn node(and: bool, parts: Vec<VersionSpecOrConstraintTree>) -> VersionSpecOrConstraintTree {
    VersionSpecOrConstraintTree::ConstraintTree(ConstraintTree { combinator: if and { Combinator::And } else { Combinator::Or }, parts })
}
fn leaf(s: &str) -> VersionSpecOrConstraintTree { VersionSpecOrConstraintTree::VersionSpec(spec_ok(s)) }
#[no_mangle]
pub extern "C" fn h_p23_nodes() {
    warm_spec();
    let n = 2 + size(40);
    let (inner, outer) = (choice(2) == 0, choice(2) == 0);
    let (hit, rest) = [("1", "9"), ("9", "1")][choice(2)];
    let at = [0, n - 1, n / 2][choice(3)];
    let wide = node(inner, (0..n).map(|i| leaf(if i == at { hit } else { rest })).collect());
    let x = leaf(["1", "9"][choice(2)]);
    let t = match choice(5) {
        0 => wide,
        1 => node(outer, vec![wide, x]),
        2 => node(outer, vec![x, wide]),
        3 => node(outer, (0..n).map(|i| if i == at { wide.clone() } else { leaf(rest) }).collect()),
        _ => node(!outer, vec![leaf("1"), node(outer, vec![x, wide]), leaf("9")]),
    };
    crate::tree::build_check(&t);
}
/// P23: long lists
#[no_mangle]
pub extern "C" fn h_p23_many() {
    warm_spec();
    let n = 2 + size(40);
    let op = [",", "|"][choice(2)];
    let (hit, rest) = [("1", "9"), ("9", ">0,<5"), ("9|8", "1"), ("(1|9),!=2", "9")][choice(4)];
    let at = [0, n - 1, n / 2][choice(3)];
    let mut v = vec![op];
    let mut want = op == ",";
    for i in 0..n {
        let a = if i == at { hit } else { rest };
        v.push(a);
        let m = ref_eval(a, &one).unwrap();
        want = if op == "," { want & m } else { want | m };
    }
    match ConstraintTree::try_from(v) {
        Ok(t) => {
            cover(1 + want as u32);
            trace(want as u64);
            check(t.test_match("1") == want && t.parts.len() == n, 1);
            let u: VersionSpecOrConstraintTree = t.into();
            crate::tree::build_check(&u);
        }
        Err(_) => check(false, 3),
    }
}
/// P24: wide and deep trees that differ at one place, or not at all
#[no_mangle]
pub extern "C" fn h_p24_size() {
    warm_spec();
    let (n, d) = (1 + size(66), [0, 1, 3, 20][choice(4)]);
    let at = [0, n - 1, n / 2][choice(3)];
    let v = [None, Some("1.1"), Some("1.A")][choice(3)];
    let g = |other: Option<&str>, and: bool, len: usize| -> VersionSpecOrConstraintTree {
        let mut t = node(and, (0..len).map(|i| leaf(if i == at { other.unwrap_or("1.a") } else { "1.a" })).collect());
        for i in 0..d {
            t = node(i % 2 == 0, vec![leaf("1"), t, leaf("2")]);
        }
        t
    };
    let a = g(None, true, n);
    let b = g(v, choice(4) > 0, n + choice(2));
    crate::tree::compare(&a, &b);
}
/// P24: the debug output of large trees
#[no_mangle]
pub extern "C" fn h_p24_long() {
    warm_spec();
    let s = if choice(2) == 0 { wide(true) } else { deep(true) };
    match treeify(&s) {
        Ok(t) => {
            let g = t.get_spec();
            let w: VersionSpecOrConstraintTree = t.into();
            let d = format!("{:?}", w);
            cover(1);
            trace(d.len() as u64);
            check(d.len() == g.len() + 2 && eq_bytes(&d.as_bytes()[1..d.len() - 1], g.as_bytes()), 6);
        }
        Err(_) => check(false, 7),
    }
}
