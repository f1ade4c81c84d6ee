//! Versions: parsing, decomposition, order.
use crate::cat;
use crate::gen::*;
use crate::oracle::*;
use crate::rt::*;
use ronda::*;
use std::cmp::Ordering;

pub fn total(s: &str) {
    let r = s.parse::<Version>();
    let p = conda_parser(s);
    check(r.is_ok() == p.is_ok(), 1);
    match r {
        Ok(v) => {
            cover(1);
            trace(v.part_count() as u64);
            check(v.part_count() == p.map(|x| x.len()).unwrap_or(99), 2);
        }
        Err(_) => {
            cover(2);
            trace(1000)
        }
    }
}
/// P01: any ASCII text of up to param(0) bytes
#[no_mangle]
pub extern "C" fn h_p01_ascii() {
    warm();
    let s = sym_str_upto(0, param(0), ASCII);
    total(&s);
}
fn utf8_char() -> Vec<u8> {
    const C: &[u8] = &{
        let mut a = [0u8; 64];
        let mut i = 0;
        while i < 64 {
            a[i] = 128 + i as u8;
            i += 1;
        }
        a
    };
    let mut v = vec![];
    // param(1): 0 = a narrow selection of lead bytes
    let few = param(1) == 0;
    match choice(3) {
        0 if few => {
            v.push(u8_in(b"\xc3\xd9"));
            v.push(u8_in(C));
        }
        1 if few => {
            v.push(0xe0 + u8_in(b"\x05\x0f"));
            v.push(u8_in(&C[60..]));
            v.push(u8_in(C));
        }
        2 if few => {
            v.extend_from_slice(b"\xf0\x9d\x9f");
            v.push(u8_in(C));
        }
        0 => {
            v.push(u8_in(b"\xc2\xc3\xc5\xd9\xdb\xdf"));
            v.push(u8_in(C));
        }
        1 => {
            v.push(u8_in(b"\xe1\xe2\xe3\xe9\xef"));
            v.push(u8_in(&C[..48]));
            v.push(u8_in(C));
        }
        _ => {
            v.push(0xf0);
            v.push(u8_in(&C[16..40]));
            v.push(u8_in(&C[..8]));
            v.push(u8_in(&C[..8]));
        }
    }
    v
}
/// P01: texts with multi-byte characters next to ASCII ones
#[no_mangle]
pub extern "C" fn h_p01_utf8() {
    warm();
    let pre = ["", "1", "a.", "1!", "1+"][choice(5)];
    let c = utf8_char();
    let post = if param(0) > 0 { sym_str_upto(0, param(0), b"1a.!+") } else { "2".to_string() };
    let mut s = pre.as_bytes().to_vec();
    s.extend_from_slice(&c);
    s.extend_from_slice(post.as_bytes());
    let s = unsafe { String::from_utf8_unchecked(s) };
    total(&s);
}
const LONG: &[&str] = &[
    "1.2.3.4.5.6.7.8.9.10.11.12.13.14.15.16.17.18.19.20",
    "99999999999999999999999999",
    "12!2.3rc4.post5.dev6+local.label",
    "2147483647.2147483648",
    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
    "1__2..3--4",
    "3276",
    "",
];
/// P01: a long concrete text with symbolic bytes before, inside and after it
#[no_mangle]
pub extern "C" fn h_p01_long() {
    warm();
    let base = LONG[choice(LONG.len())];
    let k = sym_str_upto(0, param(0), b"0129azAZ._-+! $*\x7f");
    let s = match choice(3) {
        0 => cat!(base, k),
        1 => cat!(k, base),
        _ => cat!(&base[..base.len() / 2], k, &base[base.len() / 2..]),
    };
    total(&s);
}

pub fn verbatim(s: &str) {
    if let Ok(v) = s.parse::<Version>() {
        cover(1);
        check(eq_bytes(v.as_str().as_bytes(), s.as_bytes()), 1);
        check(eq_bytes(v.to_string().as_bytes(), s.as_bytes()), 2);
        let w = v.clone();
        check(eq_bytes(w.as_str().as_bytes(), s.as_bytes()), 3);
        trace(v.as_str().len() as u64);
        if let Ok(x) = Version::parse(s, &conda_parser) {
            check(eq_bytes(x.as_str().as_bytes(), s.as_bytes()), 4);
            check(same_parts(&x, &v), 5);
            check(same_parts(&x, &w), 6);
            let y = Version::from(s);
            check(eq_bytes(y.as_str().as_bytes(), s.as_bytes()) && same_parts(&x, &y), 8);
        } else {
            check(false, 7);
        }
    }
}
/// P02: the text of an accepted version is kept as given
#[no_mangle]
pub extern "C" fn h_p02_text() {
    warm();
    let s = sym_str_upto(0, param(0), ASCII);
    verbatim(&s);
}
#[no_mangle]
pub extern "C" fn h_p02_long() {
    warm();
    let base = LONG[choice(LONG.len())];
    let k = sym_str_upto(0, param(0), b" \t019azAZ._-+!\n\0");
    let s = match choice(3) {
        0 => cat!(base, k),
        1 => cat!(k, base),
        _ => cat!(&base[..base.len() / 2], k, &base[base.len() / 2..]),
    };
    verbatim(&s);
}
#[no_mangle]
pub extern "C" fn h_p02_utf8() {
    warm();
    let mut s = ["", "1", "a."][choice(3)].as_bytes().to_vec();
    s.extend_from_slice(&utf8_char());
    s.extend_from_slice(if param(0) > 0 { ["", "1", "+b"][choice(3)] } else { "1" }.as_bytes());
    verbatim(&unsafe { String::from_utf8_unchecked(s) });
}

pub fn decomp(s: &str) {
    let r = ref_parse(s);
    let v = s.parse::<Version>();
    match (r, v) {
        (None, Err(_)) => {
            cover(2);
            trace(1000)
        }
        (Some(r), Ok(v)) => {
            cover(1);
            trace(r.len() as u64);
            check(v.part_count() == r.len(), 1);
            check(v.parts().len() == r.len(), 2);
            for i in 0..r.len() {
                check(part_is(&v.parts()[i], &r[i]), 3);
                match v.part(i) {
                    Ok(p) => check(part_is(p, &r[i]), 4),
                    Err(_) => check(false, 4),
                }
            }
            check(v.part(r.len()).is_err() && v.part(r.len() + 1).is_err() && v.part(usize::MAX).is_err(), 5);
        }
        // which texts are rejected is P04's business
        _ => cover(3),
    }
}
/// P03: decomposition against the reference parser, any ASCII bytes
#[no_mangle]
pub extern "C" fn h_p03_ascii() {
    warm();
    let s = sym_str_upto(0, param(0), ASCII);
    decomp(&s);
}
/// P03: longer texts over one representative per byte class of the grammar
#[no_mangle]
pub extern "C" fn h_p03_class() {
    warm();
    let s = sym_str_upto(0, param(0), b"09zA._-+! ");
    decomp(&s);
}
/// P03: symbolic bytes inside a long text
#[no_mangle]
pub extern "C" fn h_p03_long() {
    warm();
    let base = ["1.2.3.4.5.6.7.8.9.10.11.12", "7!2.3rc4.post5.dev6+local-label.1", "1995.01_rc-dev..x"][choice(3)];
    let k = sym_str_upto(1, param(0), b"07azAZ._-+!$");
    let at = [0, 1, 3, 5, 9, 13, base.len()][choice(7)];
    decomp(&cat!(&base[..at], k, &base[at..]));
}
/// P03: a run of up to 10 digits is its decimal value, up to i32::MAX
#[no_mangle]
pub extern "C" fn h_p03_digits() {
    warm();
    let d = sym_str_upto(1, param(0), DIGITS);
    let mut v: u64 = 0;
    for c in d.bytes() {
        v = v * 10 + (c - b'0') as u64;
    }
    assume(v <= i32::MAX as u64);
    let (s, at, n) = match choice(5) {
        0 => (d.clone(), 0, 1),
        1 => (cat!("1.", d, ".2"), 1, 3),
        2 => (cat!("x", d, "y"), 1, 3),
        3 => (cat!("3!", d, "+7"), 1, 3),
        _ => (cat!("1_2-a.", d), 3, 4),
    };
    match s.parse::<Version>() {
        Ok(p) => {
            cover(1);
            check(p.part_count() == n, 1);
            match &p.parts()[at] {
                VersionPart::Integer(i) => check(*i as i64 == v as i64, 2),
                _ => check(false, 3),
            }
        }
        Err(_) => check(false, 4),
    }
}
/// P03: the epoch number is its decimal value
#[no_mangle]
pub extern "C" fn h_p03_epoch() {
    warm();
    let d = sym_str_upto(1, param(0), DIGITS);
    let mut v: u64 = 0;
    for c in d.bytes() {
        v = v * 10 + (c - b'0') as u64;
    }
    assume(v <= 32767);
    match cat!(d, "!1.2").parse::<Version>() {
        Ok(p) => {
            cover(1);
            if v == 0 {
                check(p.part_count() == 2, 1);
            } else {
                check(p.part_count() == 3, 2);
                match &p.parts()[0] {
                    VersionPart::Epoch(e) => check(*e as i64 == v as i64, 3),
                    _ => check(false, 4),
                }
            }
        }
        Err(_) => check(false, 5),
    }
}

pub fn accept(s: &str) {
    let want = ref_parse(s).is_some();
    let got = s.parse::<Version>().is_ok();
    cover(if want { 1 } else { 2 });
    trace(got as u64);
    check(want == got, 1);
}
/// P04: exactly the well-formed texts are accepted
#[no_mangle]
pub extern "C" fn h_p04_class() {
    warm();
    let s = sym_str_upto(0, param(0), b"09a.+!- ");
    accept(&s);
}
#[no_mangle]
pub extern "C" fn h_p04_ascii() {
    warm();
    let s = sym_str_upto(0, param(0), ASCII);
    accept(&s);
}
/// P04: markers at any position of a longer text
#[no_mangle]
pub extern "C" fn h_p04_markers() {
    warm();
    let base = ["1.2.3.4", "0012.a", "32767", "1.0rc1.post2"][choice(4)];
    let n = 1 + choice(param(0));
    let mut s = base.to_string();
    for _ in 0..n {
        let at = choice(s.len() + 1);
        s = cat!(&s[..at], sym_str(1, b"!+"), &s[at..]);
    }
    accept(&s);
}
/// P04: epochs of 1 to 6 digits
#[no_mangle]
pub extern "C" fn h_p04_epoch() {
    warm();
    let s = cat!(sym_str_upto(0, 6, DIGITS), "!", sym_str_upto(0, 1, b"1a!+"));
    accept(&s);
}

/// P05: separators
#[no_mangle]
pub extern "C" fn h_p05_swap() {
    warm();
    let pre = ["", "3!"][choice(2)];
    let loc = ["", "+a.b_c-d"][choice(2)];
    let t = |k: usize| -> String {
        match choice(k) {
            0 => sym_str(1, b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"),
            1 => sym_str(2, b"09aZpo"),
            _ => "post1".to_string(),
        }
    };
    let n = 1 + choice(param(0));
    let mut a = pre.to_string();
    let mut b = pre.to_string();
    for i in 0..n {
        let w = t(3);
        if i > 0 {
            a = cat!(a, sym_str(1, b"._-"));
            b = cat!(b, sym_str(1, b"._-"));
        }
        a = cat!(a, w);
        b = cat!(b, w);
    }
    sep_same(&cat!(a, loc), &cat!(b, loc));
}
pub fn sep_same(a: &str, b: &str) {
    match (a.parse::<Version>(), b.parse::<Version>()) {
        (Ok(x), Ok(y)) => {
            cover(1);
            trace(x.part_count() as u64);
            check(same_parts(&x, &y), 1);
            check(x.compare_version(&y) == CompOp::Eq, 2);
            check(x == y, 3);
            check(x.startswith(&y) && y.startswith(&x), 4);
        }
        (Err(_), Err(_)) => {}
        _ => check(false, 5),
    }
}
/// P05: any short text, all separators of the part before '+' replaced by another one, or doubled,
/// or one added at either end
#[no_mangle]
pub extern "C" fn h_p05_map() {
    warm();
    let s = sym_str_upto(1, param(0), b"09zA._-");
    let to = b"._-"[choice(3)];
    let dbl = choice(4);
    let mut m: Vec<u8> = vec![];
    if dbl == 2 {
        m.push(to);
    }
    for c in s.bytes() {
        if c == b'.' || c == b'_' || c == b'-' {
            m.push(to);
            if dbl == 1 {
                m.push(b'_');
            }
        } else {
            m.push(c);
        }
    }
    if dbl == 3 {
        m.push(to);
    }
    let m = unsafe { String::from_utf8_unchecked(m) };
    match choice(3) {
        0 => sep_same(&s, &m),
        1 => sep_same(&cat!("9!", s, "+q.r-s"), &cat!("9!", m, "+q.r-s")),
        _ => sep_same(&cat!("1.2.3.4.5.6.7.", s), &cat!("1-2_3.4--5.6_.7-", m)),
    }
}

const SIX: [CompOp; 6] = [CompOp::Eq, CompOp::Ne, CompOp::Lt, CompOp::Le, CompOp::Gt, CompOp::Ge];
pub fn holds(op: CompOp, o: Ordering) -> bool {
    match op {
        CompOp::Eq => o == Ordering::Equal,
        CompOp::Ne => o != Ordering::Equal,
        CompOp::Lt => o == Ordering::Less,
        CompOp::Le => o != Ordering::Greater,
        CompOp::Gt => o == Ordering::Greater,
        CompOp::Ge => o != Ordering::Less,
        _ => unreachable!(),
    }
}
pub fn ordering(a: &Version, b: &Version, id: u32) -> Ordering {
    match a.compare_version(b) {
        CompOp::Lt => Ordering::Less,
        CompOp::Eq => Ordering::Equal,
        CompOp::Gt => Ordering::Greater,
        _ => {
            check(false, id);
            unreachable!()
        }
    }
}
pub fn consistent(a: &Version, b: &Version) {
    let o = ordering(a, b, 1);
    trace(ord_code(o));
    cover(1 + ord_code(o) as u32);
    check(ordering(b, a, 2) == o.reverse(), 3);
    check(ordering(a, a, 4) == Ordering::Equal && ordering(b, b, 4) == Ordering::Equal, 5);
    check(a.partial_cmp(b) == Some(o), 6);
    check((a == b) == (o == Ordering::Equal) && (a != b) == (o != Ordering::Equal), 7);
    check((a < b) == (o == Ordering::Less) && (a > b) == (o == Ordering::Greater), 8);
    check((a <= b) == (o != Ordering::Greater) && (a >= b) == (o != Ordering::Less), 9);
    for op in SIX.iter() {
        check(a.compare_to_version(b, op) == holds(*op, o), 10 + *op as u32);
    }
}
pub fn consistent_str(a: &Version, b: &Version, bs: &str) {
    consistent(a, b);
    let o = ordering(a, b, 1);
    check(a.compare_str(bs).ord() == Some(o), 30);
    for op in SIX.iter() {
        check(a.compare_to_str(bs, op) == holds(*op, o), 31);
    }
}
/// P06: pairs of short texts
#[no_mangle]
pub extern "C" fn h_p06_short() {
    warm();
    let al: &[u8] = b"019aZ.!+-";
    let a = sym_str_upto(0, param(0), al);
    let b = sym_str_upto(0, param(0), al);
    let (x, y) = (parse_ok(&a), parse_ok(&b));
    consistent_str(&x, &y, &b);
}
/// P06: structured pairs
#[no_mangle]
pub extern "C" fn h_p06_struct() {
    warm();
    let pre = ["", "2!"][choice(2)];
    let a = cat!(pre, dotted(0, param(0)));
    let b = cat!(["", "2!"][choice(2)], dotted(0, param(0)));
    let (x, y) = (parse_ok(&a), parse_ok(&b));
    consistent(&x, &y);
}
/// P06: full-range components
#[no_mangle]
pub extern "C" fn h_p06_parts() {
    warm();
    let x = mk(any_parts(0, param(0), true, true));
    let y = mk(any_parts(0, param(0), true, true));
    consistent(&x, &y);
}
/// P06: long versions that differ at one place only
#[no_mangle]
pub extern "C" fn h_p06_long() {
    warm();
    let n = [4, 9, 17, 40][choice(4)];
    let at = choice(n);
    let mut v: Vec<VersionPart> = (0..n).map(|i| if i % 5 == 4 { pep("rc") } else { VersionPart::Integer(i as i32) }).collect();
    let mut w = v.clone();
    v[at] = any_part();
    w[at] = any_part();
    if choice(2) == 1 {
        w.push(any_part());
    }
    consistent(&mk(v), &mk(w));
}

fn le(o: Ordering) -> bool { o != Ordering::Greater }
pub fn transitive(a: &Version, b: &Version, c: &Version) {
    assume(!zero_hazard(a, b) && !zero_hazard(b, c) && !zero_hazard(a, c));
    let (ab, bc, ac) = (ordering(a, b, 1), ordering(b, c, 1), ordering(a, c, 1));
    trace(ord_code(ab) * 9 + ord_code(bc) * 3 + ord_code(ac));
    if le(ab) && le(bc) {
        cover(1);
        check(le(ac), 2);
        if ab == Ordering::Less || bc == Ordering::Less {
            cover(2);
            check(ac == Ordering::Less, 3);
        } else {
            cover(3);
            check(ac == Ordering::Equal, 4);
        }
    }
    if !le(ab) && !le(bc) {
        check(ac == Ordering::Greater, 5);
    }
}
/// P07: triples of versions with full-range components
#[no_mangle]
pub extern "C" fn h_p07_parts() {
    warm();
    let a = mk(any_parts(0, param(0), false, true));
    let b = mk(any_parts(0, param(0), false, true));
    let c = mk(any_parts(0, param(0), false, true));
    transitive(&a, &b, &c);
}
/// P07: numeric and letter components, one more component than h_p07_parts
#[no_mangle]
pub extern "C" fn h_p07_deep() {
    warm();
    let g = |hi: usize| -> Version {
        let mut v = vec![];
        if choice(2) == 1 {
            v.push(VersionPart::Epoch(1));
        }
        let n = choice(hi + 1);
        for _ in 0..n {
            v.push(match choice(2) {
                0 => VersionPart::Integer(u8_in(b"\x00\x01\x02") as i32),
                _ => pep(["b", "Dev", "post"][choice(3)]),
            });
        }
        if v.is_empty() {
            v.push(VersionPart::Empty);
        }
        mk(v)
    };
    let (a, b, c) = (g(param(0)), g(param(0)), g(param(0)));
    transitive(&a, &b, &c);
}
/// P07: the same first component, then up to param of any kind and value
#[no_mangle]
pub extern "C" fn h_p07_tail() {
    warm();
    let g = || -> Version {
        let mut v = vec![VersionPart::Integer(1)];
        let n = choice(param(0) + 1);
        for i in 0..n {
            v.push(match choice(3) {
                0 => {
                    let x = u32_any();
                    assume(x <= i32::MAX as u32);
                    VersionPart::Integer(x as i32)
                }
                1 => pep(["a", "dev"][choice(2)]),
                _ => pep(["post", "b"][if i == 0 { choice(2) } else { 0 }]),
            });
        }
        mk(v)
    };
    transitive(&g(), &g(), &g());
}
/// P07: triples of short texts
#[no_mangle]
pub extern "C" fn h_p07_text() {
    warm();
    let al: &[u8] = b"012aB.-";
    let a = parse_ok(&sym_str_upto(0, param(0), al));
    let b = parse_ok(&sym_str_upto(0, param(0), al));
    let c = parse_ok(&sym_str_upto(0, param(0), al));
    transitive(&a, &b, &c);
}

pub fn num_cmp(a: &[u64], b: &[u64]) -> Ordering {
    let n = if a.len() > b.len() { a.len() } else { b.len() };
    for i in 0..n {
        let x = if i < a.len() { a[i] } else { 0 };
        let y = if i < b.len() { b[i] } else { 0 };
        if x < y {
            return Ordering::Less;
        }
        if x > y {
            return Ordering::Greater;
        }
    }
    Ordering::Equal
}
fn numeric(k: usize, digits: usize) -> (String, Vec<u64>) {
    let n = 1 + choice(k);
    let mut s = String::new();
    let mut v = vec![];
    for i in 0..n {
        let d = num(digits);
        let mut x = 0u64;
        for c in d.bytes() {
            x = x * 10 + (c - b'0') as u64;
        }
        v.push(x);
        if i > 0 {
            s.push('.');
        }
        s = cat!(s, d);
    }
    (s, v)
}
pub fn num_check(a: &Version, b: &Version, o: Ordering) {
    trace(ord_code(o));
    cover(1 + ord_code(o) as u32);
    check(ordering(a, b, 1) == o, 2);
    check((a < b) == (o == Ordering::Less) && (a == b) == (o == Ordering::Equal), 3);
}
/// P08: dotted numbers of a few digits
#[no_mangle]
pub extern "C" fn h_p08_text() {
    warm();
    let (a, x) = numeric(param(0), param(1));
    let (b, y) = numeric(param(0), param(1));
    num_check(&parse_ok(&a), &parse_ok(&b), num_cmp(&x, &y));
}
/// P08: one long number each (up to 10 digits, up to i32::MAX), with a common prefix
#[no_mangle]
pub extern "C" fn h_p08_digits() {
    warm();
    let (a, x) = numeric(1, 10);
    let (b, y) = numeric(1, 10);
    assume(x[0] <= i32::MAX as u64 && y[0] <= i32::MAX as u64);
    let p = ["", "1.", "0.0.7."][choice(3)];
    num_check(&parse_ok(&cat!(p, a)), &parse_ok(&cat!(p, b)), num_cmp(&x, &y));
}
/// P08: full-range numeric components
#[no_mangle]
pub extern "C" fn h_p08_parts() {
    warm();
    let g = |k: usize| -> (Version, Vec<u64>) {
        let n = 1 + choice(k);
        let mut v = vec![];
        let mut x = vec![];
        for _ in 0..n {
            let u = u32_any();
            assume(u <= i32::MAX as u32);
            v.push(VersionPart::Integer(u as i32));
            x.push(u as u64);
        }
        (mk(v), x)
    };
    let (a, x) = g(param(0));
    let (b, y) = g(param(0));
    num_check(&a, &b, num_cmp(&x, &y));
}
/// P08: long dotted texts with trailing zeros
#[no_mangle]
pub extern "C" fn h_p08_zeros() {
    warm();
    let n = choice(param(0) + 1);
    let m = choice(param(0) + 1);
    let d = sym_str(1, DIGITS);
    let e = sym_str(1, DIGITS);
    let mut a = cat!("4.", d);
    let mut b = cat!("4.", d);
    let mut x = vec![4, (d.as_bytes()[0] - b'0') as u64];
    let mut y = x.clone();
    for _ in 0..n {
        a.push_str(".0");
        x.push(0);
    }
    for _ in 0..m {
        b.push_str(".00");
        y.push(0);
    }
    if choice(2) == 1 {
        a = cat!(a, ".", e);
        x.push((e.as_bytes()[0] - b'0') as u64);
    }
    num_check(&parse_ok(&a), &parse_ok(&b), num_cmp(&x, &y));
}

/// P09: dev < other text < release < post for the same release number
pub fn phase(release: &str, s: &str, t: &str, sep1: &str, sep2: &str) {
    let a = if s.is_empty() { release.to_string() } else { cat!(release, sep1, s) };
    let b = if t.is_empty() { release.to_string() } else { cat!(release, sep2, t) };
    let (x, y) = (parse_ok(&a), parse_ok(&b));
    let o = cmp_text(s.as_bytes(), t.as_bytes());
    trace(ord_code(o));
    cover(10 + text_class(s.as_bytes()) as u32 * 4 + text_class(t.as_bytes()) as u32);
    check(ordering(&x, &y, 1) == o, 2);
    check((x < y) == (o == Ordering::Less), 3);
}
pub fn seps() -> &'static str { ["", ".", "-", "_"][choice(4)] }
/// suffixes of symbolic letters
#[no_mangle]
pub extern "C" fn h_p09_letters() {
    warm();
    let s = sym_str_upto(0, param(0), b"devpostDEVPOSTaAzZ");
    let t = sym_str_upto(0, param(0), b"devpostDEVPOSTaAzZ");
    phase("1.2", &s, &t, seps(), ".");
}
/// one suffix is one of the special words with symbolic letter case and neighbours
#[no_mangle]
pub extern "C" fn h_p09_words() {
    warm();
    let s = match choice(5) {
        0 => cat!(sym_str(1, b"dD"), sym_str(1, b"eE"), sym_str(1, b"vV")),
        1 => cat!(sym_str(1, b"pP"), sym_str(1, b"oO"), sym_str(1, b"sS"), sym_str(1, b"tT")),
        2 => cat!(sym_str(1, LETTERS), "dev", sym_str_upto(0, 1, LETTERS)),
        3 => cat!(sym_str_upto(0, 1, LETTERS), "post", sym_str(1, LETTERS)),
        _ => cat!("pos", sym_str_upto(0, 1, LETTERS)),
    };
    let t = match choice(6) {
        0 => String::new(),
        1 => sym_str(1, LETTERS),
        2 => "dev".to_string(),
        3 => "post".to_string(),
        4 => ["alpha", "beta", "rc", "DEv", "PoST", "devpost", "postdev"][choice(7)].to_string(),
        _ => cat!("de", sym_str(1, LETTERS)),
    };
    let r = ["1", "3.4.5", "2!0.0.9.1"][choice(3)];
    if choice(2) == 0 {
        phase(r, &s, &t, seps(), ".");
    } else {
        phase(r, &t, &s, ".", seps());
    }
}
/// P09: numbered phases: same word, the number decides; different rank, the word decides
#[no_mangle]
pub extern "C" fn h_p09_numbered() {
    warm();
    const W: [&str; 6] = ["dev", "a", "beta", "rc", "post", "DEV"];
    let (i, j) = (choice(6), choice(6));
    let (m, n) = (num(param(0)), num(param(0)));
    let val = |s: &str| -> u64 {
        let mut x = 0u64;
        for c in s.bytes() {
            x = x * 10 + (c - b'0') as u64;
        }
        x
    };
    let sep = seps();
    let a = parse_ok(&cat!("1.5", sep, W[i], m));
    let b = parse_ok(&cat!("1.5", ".", W[j], n));
    let mut o = cmp_text(W[i].as_bytes(), W[j].as_bytes());
    if o == Ordering::Equal {
        o = val(&m).cmp(&val(&n));
    }
    trace(ord_code(o));
    cover(1 + ord_code(o) as u32);
    check(ordering(&a, &b, 1) == o, 2);
    // and the release sits between
    let r = parse_ok("1.5");
    check(ordering(&a, &r, 1) == if i == 4 { Ordering::Greater } else { Ordering::Less }, 3);
    // the next release is above all of them
    let q = parse_ok("1.6");
    check(ordering(&a, &q, 1) == Ordering::Less, 4);
}

/// P10: the epoch decides first
#[no_mangle]
pub extern "C" fn h_p10_epoch() {
    warm();
    let tail = |k: usize| -> String {
        match choice(k) {
            0 => sym_str(1, ASCII_NO_MARK),
            1 => String::new(),
            2 => "2147483647.9".to_string(),
            3 => "9post9+zz".to_string(),
            4 => "0.0dev".to_string(),
            _ => unreachable!(),
        }
    };
    let e = sym_str_upto(0, param(0), DIGITS);
    let f = sym_str_upto(1, param(0), DIGITS);
    let val = |s: &str| -> u64 {
        let mut x = 0u64;
        for c in s.bytes() {
            x = x * 10 + (c - b'0') as u64;
        }
        x
    };
    let (x, y) = (val(&e), val(&f));
    assume(x <= 32767 && y <= 32767);
    let (s, t) = (tail(5), tail(5));
    let a = if e.is_empty() { s.clone() } else { cat!(e, "!", s) };
    let b = cat!(f, "!", t);
    let (a, b) = (parse_ok(&a), parse_ok(&b));
    if x < y {
        cover(1);
        check(ordering(&a, &b, 1) == Ordering::Less, 2);
        check(ordering(&b, &a, 1) == Ordering::Greater, 3);
    } else if x > y {
        cover(2);
        check(ordering(&a, &b, 1) == Ordering::Greater, 4);
    } else {
        cover(3);
        // same epoch: the rest decides, exactly as without it (the version without any component is special)
        let (c, d) = (parse_ok(&s), parse_ok(&t));
        assume(!same_part(&c.parts()[0], &VersionPart::Empty) && !same_part(&d.parts()[0], &VersionPart::Empty));
        check(ordering(&a, &b, 1) == ordering(&c, &d, 1), 5);
    }
}
pub const ASCII_NO_MARK: &[u8] = &{
    let mut a = [b'.'; 126];
    let mut i = 0;
    let mut n = 0;
    while i < 128 {
        if i != b'!' as usize && i != b'+' as usize {
            a[n] = i as u8;
            n += 1;
        }
        i += 1;
    }
    a
};
/// P10: nothing behind the epoch, or one component
#[no_mangle]
pub extern "C" fn h_p10_bare() {
    warm();
    let g = || -> (u32, Version) {
        let e = u32_any();
        assume(e <= 32767);
        let mut v = vec![];
        if e > 0 {
            v.push(VersionPart::Epoch(e as i16));
        }
        match choice(3) {
            0 => {}
            1 => v.push(any_part()),
            _ => v.push(VersionPart::LexicographicString(sym_str(1, b"0aZ"))),
        }
        if v.is_empty() {
            v.push(VersionPart::Empty);
        }
        (e, mk(v))
    };
    let ((e, a), (f, b)) = (g(), g());
    assume(e != f);
    let o = if e < f { Ordering::Less } else { Ordering::Greater };
    cover(1 + (e < f) as u32);
    check(ordering(&a, &b, 1) == o, 1);
    check((a < b) == (o == Ordering::Less) && a != b, 2);
}
/// P10: full-range epochs
#[no_mangle]
pub extern "C" fn h_p10_parts() {
    warm();
    let g = || -> (u32, Version) {
        let e = u32_any();
        assume(e >= 1 && e <= 32767);
        let mut v = vec![VersionPart::Epoch(e as i16)];
        v.extend(any_parts(1, param(0), false, true));
        (e, mk(v))
    };
    let (e, a) = g();
    let (f, b) = g();
    if e < f {
        cover(1);
        check(ordering(&a, &b, 1) == Ordering::Less, 1);
    } else if e > f {
        cover(2);
        check(ordering(&a, &b, 1) == Ordering::Greater, 2);
    }
    let c = mk(any_parts(1, param(0), false, true));
    check(ordering(&a, &c, 1) == Ordering::Greater, 3);
}

fn flip(c: u8, m: bool) -> u8 {
    if m && ((c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z')) {
        c ^ 32
    } else {
        c
    }
}
/// P11: letter case never matters outside the local label
#[no_mangle]
pub extern "C" fn h_p11_case() {
    warm();
    let s = sym_str_upto(1, param(0), b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ01.");
    let mask = choice(1 << s.len());
    let m: Vec<u8> = s.bytes().enumerate().map(|(i, c)| flip(c, mask >> i & 1 == 1)).collect();
    let m = unsafe { String::from_utf8_unchecked(m) };
    case_same(&s, &m, ["1.b", "1.2dev", "a", "1.rc.post", "Q2"][choice(5)]);
}
pub fn case_same(s: &str, m: &str, t: &str) {
    let (a, b, c) = (parse_ok(s), parse_ok(m), parse_ok(t));
    cover(1);
    check(ordering(&a, &b, 1) == Ordering::Equal, 2);
    check(a == b, 3);
    let o = ordering(&a, &c, 1);
    trace(ord_code(o));
    check(o == ordering(&b, &c, 1), 4);
    check(ordering(&c, &a, 1) == ordering(&c, &b, 1), 5);
    check(a.startswith(&b) && b.startswith(&a), 6);
}
/// P11: words in longer versions
#[no_mangle]
pub extern "C" fn h_p11_words() {
    warm();
    let w = ["dev", "post", "alpha", "rc", "b", "z"][choice(6)];
    let mut x = vec![];
    let mut y = vec![];
    for c in w.bytes() {
        x.push(u8_in(&[c, c ^ 32]));
        y.push(u8_in(&[c, c ^ 32]));
    }
    let (x, y) = unsafe { (String::from_utf8_unchecked(x), String::from_utf8_unchecked(y)) };
    let (p, q) = [("", ""), ("1.", "2"), ("1!3.4", ".5.6"), ("1_", "+Loc")][choice(4)];
    case_same(&cat!(p, x, q), &cat!(p, y, q), ["1.b", "1.0", "1!3.4DEV.5", "post"][choice(4)]);
}

/// P12: local labels
#[no_mangle]
pub extern "C" fn h_p12_local() {
    warm();
    let pubv = match choice(5) {
        0 => "1.2".to_string(),
        1 => "1!3.0rc1".to_string(),
        2 => cat!("1.", sym_str(1, ASCII_NO_MARK)),
        3 => "2.post4.dev".to_string(),
        _ => "0".to_string(),
    };
    let x = sym_str_upto(0, param(0), ASCII_NO_MARK);
    let y = sym_str_upto(0, param(0), ASCII_NO_MARK);
    let a = parse_ok(&if x.is_empty() && choice(2) == 1 { pubv.clone() } else { cat!(pubv, "+", x) });
    let b = parse_ok(&cat!(pubv, "+", y));
    let o = cmp_bytes(x.as_bytes(), y.as_bytes());
    trace(ord_code(o));
    cover(1 + ord_code(o) as u32);
    check(ordering(&a, &b, 1) == o, 2);
    check(ordering(&b, &a, 1) == o.reverse(), 3);
    check((a == b) == (o == Ordering::Equal), 4);
}
/// P12: long labels that share a prefix
#[no_mangle]
pub extern "C" fn h_p12_long() {
    warm();
    let base = "ubuntu.1-2_3.abcdefghijklmnop";
    let at = [0, 5, 12, base.len()][choice(4)];
    let x = cat!(&base[..at], sym_str_upto(0, 2, b"019azAZ._-"), &base[at..]);
    let y = cat!(&base[..at], sym_str_upto(0, 2, b"019azAZ._-"), &base[at..]);
    let a = parse_ok(&cat!("1.0.3+", x));
    let b = parse_ok(&cat!("1.0.3+", y));
    let o = cmp_bytes(x.as_bytes(), y.as_bytes());
    cover(1 + ord_code(o) as u32);
    check(ordering(&a, &b, 1) == o, 2);
}
/// P12: the public parts decide before the label (same number of components)
#[no_mangle]
pub extern "C" fn h_p12_public() {
    warm();
    let n = 1 + choice(param(0));
    let mut v = vec![];
    let mut w = vec![];
    for _ in 0..n {
        v.push(any_part());
        w.push(any_part());
    }
    let (p, q) = (mk(v.clone()), mk(w.clone()));
    let o = ordering(&p, &q, 1);
    assume(o != Ordering::Equal);
    if choice(2) == 0 {
        v.push(VersionPart::LexicographicString(sym_str(1, LETTERS)));
    }
    w.push(VersionPart::LexicographicString(sym_str(1, LETTERS)));
    cover(1);
    check(ordering(&mk(v), &mk(w), 1) == o, 2);
}

pub fn sw(a: &Version, b: &Version) {
    let want = ref_startswith(a, b);
    trace(want as u64);
    cover(1 + want as u32);
    check(a.startswith(b) == want, 1);
    check(a.compare_to_version(b, &CompOp::StartsWith) == want, 2);
    check(a.compare_to_version(b, &CompOp::NotStartsWith) == !want, 3);
}
/// P39: the first place where two versions differ decides
pub fn first_decides(a: &Version, b: &Version) {
    let o = ref_cmp(a, b);
    trace(ord_code(o));
    cover(1 + ord_code(o) as u32);
    check(ordering(a, b, 1) == o, 2);
    check(ordering(b, a, 1) == o.reverse(), 3);
    check((a < b) == (o == Ordering::Less) && (a == b) == (o == Ordering::Equal), 4);
}
#[no_mangle]
pub extern "C" fn h_p39_text() {
    warm();
    let al: &[u8] = b"019aZ.!+-";
    let a = parse_ok(&sym_str_upto(0, param(0), al));
    let b = parse_ok(&sym_str_upto(0, param(0), al));
    first_decides(&a, &b);
}
/// P39: any 31-bit numbers, letters, dev, post, epochs, labels
#[no_mangle]
pub extern "C" fn h_p39_parts() {
    warm();
    let a = mk(any_parts(0, param(0), true, true));
    let b = mk(any_parts(0, param(0), true, true));
    first_decides(&a, &b);
}
/// P39: one of the two goes on where the other ends
#[no_mangle]
pub extern "C" fn h_p39_tail() {
    warm();
    let n = 1 + choice(param(0));
    let c = ["1.2", "3!4.5.6", "7", "1.2.3.4.5.6.7.8.9"][choice(4)];
    let mut v: Vec<VersionPart> = parse_ok(c).parts().to_vec();
    let a = mk(v.clone());
    for _ in 0..n {
        v.push(any_part());
    }
    if choice(2) == 1 {
        v.push(VersionPart::LexicographicString(sym_str(1, b"0aZ")));
    }
    first_decides(&mk(v), &a);
}
/// P13: startswith is a prefix test on components
#[no_mangle]
pub extern "C" fn h_p13_text() {
    warm();
    let al: &[u8] = b"019aZ.+-";
    let a = parse_ok(&sym_str_upto(0, param(0), al));
    let b = parse_ok(&sym_str_upto(0, param(0), al));
    sw(&a, &b);
}
#[no_mangle]
pub extern "C" fn h_p13_parts() {
    warm();
    let a = mk(any_parts(0, param(0), true, true));
    let b = mk(any_parts(0, param(0), true, true));
    sw(&a, &b);
}
/// P13: extending a version always keeps it a prefix; changing a component breaks it
#[no_mangle]
pub extern "C" fn h_p13_long() {
    warm();
    let n = [1, 3, 8, 20][choice(4)];
    let v: Vec<VersionPart> = (0..n).map(|i| if i % 4 == 3 { pep("a") } else { VersionPart::Integer(i as i32) }).collect();
    let mut w = v.clone();
    for _ in 0..choice(3) {
        w.push(any_part());
    }
    let mut u = v.clone();
    let at = choice(n);
    u[at] = any_part();
    let (a, b, c) = (mk(v), mk(w), mk(u));
    check(b.startswith(&a), 4);
    check(b.startswith(&b), 5);
    sw(&a, &b);
    sw(&b, &c);
}
