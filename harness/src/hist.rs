//! Histories: what a call returns must not depend on the calls made before it, whatever they were
//! about (the same text, one that shares length or prefix, one that was rejected, ...).
use crate::cat;
use crate::gen::*;
use crate::long::rep;
use crate::oracle::*;
use crate::rt::*;
use crate::spec::{exactness, glob_want, spec_ok, spec_total};
use crate::tree::{one, ref_eval, roundtrip, semantics};
use crate::ver::*;
use ronda::verif_hooks::Spec;
use ronda::*;
use std::convert::TryFrom;

/// Two texts: short and free, or with a long common part.
fn two(al: &[u8]) -> (String, String) {
    let p = ["", "1.", "abcdefghijklmnopqrstuvwxyz.1234567"][choice(3)];
    let q = if choice(2) == 0 { "" } else { "-zz" };
    (cat!(p, sym_str_upto(0, param(0), al), q), cat!(p, sym_str_upto(0, param(0), al), q))
}
const AL: &[u8] = b"09aA.+!";
#[no_mangle]
pub extern "C" fn h_p01_again() {
    warm();
    let (a, b) = two(AL);
    total(&a);
    total(&b);
    total(&a);
}
#[no_mangle]
pub extern "C" fn h_p02_again() {
    warm();
    let (a, b) = two(AL);
    verbatim(&a);
    verbatim(&b);
    let keep = a.parse::<Version>();
    verbatim(&b);
    if let Ok(v) = keep {
        check(eq_bytes(v.as_str().as_bytes(), a.as_bytes()), 20);
    }
    verbatim(&a);
}
#[no_mangle]
pub extern "C" fn h_p03_again() {
    warm();
    let (a, b) = two(AL);
    decomp(&a);
    decomp(&b);
    decomp(&a);
}
#[no_mangle]
pub extern "C" fn h_p04_again() {
    warm();
    let (a, b) = two(AL);
    accept(&a);
    accept(&b);
    accept(&a);
}
/// P06: a comparison gives the same result again after other ones, on fresh objects and on clones
#[no_mangle]
pub extern "C" fn h_p06_again() {
    warm();
    let al: &[u8] = b"09aZ.";
    let p = ["", "1.2."][choice(2)];
    let g = || cat!(p, sym_str_upto(0, param(0), al));
    let (a, b) = (g(), g());
    let c = ["", "0", "1.2.dev", "1.2.0", "post"][choice(5)];
    let (x, y, z) = (parse_ok(&a), parse_ok(&b), parse_ok(c));
    let o = ordering(&x, &y, 1);
    let (xz, zy) = (ordering(&x, &z, 1), ordering(&z, &y, 1));
    check(ordering(&x, &y, 1) == o, 2);
    check(ordering(&parse_ok(&a), &parse_ok(&b), 1) == o, 3);
    check(ordering(&x.clone(), &y.clone(), 1) == o && x.compare_str(&b).ord() == Some(o), 4);
    check(ordering(&z, &x, 1) == xz.reverse() && ordering(&y, &z, 1) == zy.reverse(), 5);
    consistent(&x, &y);
}
#[no_mangle]
pub extern "C" fn h_p13_again() {
    warm();
    let al: &[u8] = b"09aZ.+";
    let (a, b) = (parse_ok(&sym_str_upto(0, param(0), al)), parse_ok(&sym_str_upto(0, param(0), al)));
    sw(&a, &b);
    sw(&b, &a);
    sw(&a, &parse_ok("1.a"));
    sw(&a, &b);
}
const SIGN: [&str; 6] = ["==", "!=", "<", "<=", ">=", ">"];
const KIND: [CompOp; 6] = [CompOp::Eq, CompOp::Ne, CompOp::Lt, CompOp::Le, CompOp::Ge, CompOp::Gt];
/// P16: one spec asked about several versions, several specs about one version
#[no_mangle]
pub extern "C" fn h_p16_again() {
    warm_spec();
    let al: &[u8] = b"19aZ.";
    let (v, w) = (sym_str_upto(1, param(0), al), sym_str_upto(1, param(0), al));
    let (i, j) = (choice(6), choice(6));
    let s = spec_ok(&cat!(SIGN[i], v));
    let t = spec_ok(&cat!(SIGN[j], w));
    let xs = ["1", "1.a", "9.0", &v, &w];
    cover(1);
    for _ in 0..2 {
        for x in xs.iter() {
            let p = parse_ok(x);
            let want = holds(KIND[i], ordering(&p, &parse_ok(&v), 1));
            check(s.test_match(x) == want && s.test_match_version(&p) == want, 10);
            let want = holds(KIND[j], ordering(&p, &parse_ok(&w), 1));
            check(t.test_match_version(&p) == want && t.test_match(x) == want, 11);
            trace(want as u64);
        }
    }
}
#[no_mangle]
pub extern "C" fn h_p17_again() {
    warm_spec();
    let al: &[u8] = b"19aZ.";
    let g = || {
        let v = sym_str_upto(1, param(0), al);
        let v = v.trim_end_matches('.').to_string();
        assume(!v.is_empty());
        v
    };
    let (v, w) = (g(), g());
    let neg = choice(2) == 1;
    let s = spec_ok(&cat!(if neg { "!=" } else { "" }, v, ".*"));
    let t = spec_ok(&cat!("=", w));
    let xs = ["1", "1.a.2", "9.0", &v, &w];
    cover(1);
    for _ in 0..2 {
        for x in xs.iter() {
            let p = parse_ok(x);
            let want = ref_startswith(&p, &parse_ok(&v)) != neg;
            check(s.test_match(x) == want && s.test_match_version(&p) == want, 10);
            let want = ref_startswith(&p, &parse_ok(&w));
            check(t.test_match_version(&p) == want && t.test_match(x) == want, 11);
            trace(want as u64);
        }
    }
}
#[no_mangle]
pub extern "C" fn h_p18_again() {
    warm_spec();
    let al: &[u8] = b"=<!*.1a";
    let p = ["", "==1.2.3.4.5.6.7.8.9.1"][choice(2)];
    let (a, b) = (cat!(p, sym_str_upto(0, param(0), al)), cat!(p, sym_str_upto(0, param(0), al)));
    spec_total(&a);
    spec_total(&b);
    spec_total(&a);
}
/// P19: several globs and expressions in one run
#[no_mangle]
pub extern "C" fn h_p19_again() {
    warm_spec();
    let l = |k: usize| sym_str_upto(0, k, b"1a.");
    let p = cat!("1*", l(param(0)), "2");
    let q = cat!("1*", l(param(0)), "2");
    let r = cat!("^1.*", ["", "a", "\\."][choice(3)], "2$");
    let (s, t, u) = (spec_ok(&p), spec_ok(&q), spec_ok(&r));
    cover(1);
    for x in ["12", "1a2", "1.02", "1.a.2", "312", "122.", "1.\u{e9}2", "1a.1.2"].iter() {
        let v = parse_ok(x);
        for _ in 0..2 {
            check(s.test_match_version(&v) == glob(p.as_bytes(), x.as_bytes()), 10);
            check(t.test_match_version(&v) == glob(q.as_bytes(), x.as_bytes()), 11);
            check(u.test_match(x) == glob_want(&r, x), 12);
        }
        trace(u.test_match(x) as u64);
    }
    check(spec_ok(&p).test_match("1772") == glob(p.as_bytes(), b"1772"), 13);
}
#[no_mangle]
pub extern "C" fn h_p20_again() {
    warm_spec();
    let al: &[u8] = b"=*1a@.";
    let p = ["", "==1.2.3.4.5.6.7.8.9.1"][choice(2)];
    let (a, b) = (cat!(p, sym_str_upto(1, param(0), al)), cat!(p, sym_str_upto(1, param(0), al)));
    exactness(&a);
    exactness(&b);
    exactness(&a);
}
/// P21: expressions one after the other
#[no_mangle]
pub extern "C" fn h_p21_again() {
    warm_spec();
    let g = || -> String {
        let (a, b, c) = (["1", "9"][choice(2)], ["1", "9"][choice(2)], ["1", "9"][choice(2)]);
        match choice(4) {
            0 => cat!(a, ",", b, "|", c),
            1 => cat!(a, ",(", b, "|", c, ")"),
            2 => cat!("(", a, "|", b, "),", c),
            _ => cat!(a, "|", b, ",", c),
        }
    };
    let (a, b) = (g(), g());
    let (t, u) = (treeify(&a), treeify(&b));
    match (t, u) {
        (Ok(t), Ok(u)) => {
            let (w, z) = (ref_eval(&a, &one).unwrap(), ref_eval(&b, &one).unwrap());
            for _ in 0..2 {
                check(t.test_match("1") == w && !t.test_match("7"), 10);
                check(u.test_match("1") == z && !u.test_match("7"), 11);
                check(t.test_match_version(&parse_ok("1.0")) == w, 12);
            }
        }
        _ => check(false, 13),
    }
    semantics(&a);
    semantics(&b);
    semantics(&a);
}
#[no_mangle]
pub extern "C" fn h_p22_again() {
    warm_spec();
    let p = ["", "(1|2),"][choice(2)];
    let g = || cat!(p, sym_str_upto(0, param(0), b"()|,1"));
    let (a, b) = (g(), g());
    crate::tree::accept(&a);
    crate::tree::accept(&b);
    crate::tree::accept(&a);
}
#[no_mangle]
pub extern "C" fn h_p23_again() {
    warm_spec();
    let (a, b) = (crate::tree::gen_expr(param(0)), crate::tree::gen_expr(param(0)));
    roundtrip(&a);
    roundtrip(&b);
    roundtrip(&a);
}
/// P24: equality asked again after other comparisons
#[no_mangle]
pub extern "C" fn h_p24_again() {
    warm_spec();
    let g = || -> VersionSpecOrConstraintTree { VersionSpecOrConstraintTree::try_from(crate::tree::gen_expr(param(0)).as_str()).ok().unwrap() };
    let (a, b) = (g(), g());
    crate::tree::compare(&a, &b);
    crate::tree::compare(&a, &a.clone());
    crate::tree::compare(&b, &a);
    trace(rep("x", 2).len() as u64);
}

/// One call of some kind on the texts; what it returned as a number.
fn outcome(k: usize, s: &str, t: &str) -> u64 {
    let v = |x: &str| x.parse::<Version>();
    match k {
        0 => match v(s) {
            Ok(a) => 1 + a.part_count() as u64,
            Err(_) => 0,
        },
        1 => match (v(s), v(t)) {
            (Ok(a), Ok(b)) => 1 + a.compare_version(&b) as u64,
            _ => 0,
        },
        2 => match (v(s), v(t)) {
            (Ok(a), Ok(b)) => 1 + a.startswith(&b) as u64,
            _ => 0,
        },
        3 | 4 => {
            let f = if k == 3 { cat!(">=", s) } else { cat!(s, ".*") };
            match (ronda::verif_hooks::VersionSpec::try_from(f.as_str()), v(t)) {
                (Ok(a), Ok(b)) => 1 + a.test_match_version(&b) as u64 + 2 * a.is_exact() as u64,
                _ => 0,
            }
        }
        _ => match (treeify(&cat!(s, "|(", t, ",!=", s, ")")), v(t)) {
            (Ok(a), Ok(b)) => 1 + a.test_match_version(&b) as u64,
            _ => 0,
        },
    }
}
/// P37: four calls in one order and in the reverse one
#[no_mangle]
pub extern "C" fn h_p37_mix() {
    warm_spec();
    let (a, b) = two(b"01aA.!");
    let k = choice(6);
    let j = choice(6);
    let r = [outcome(k, &a, &b), outcome(j, &a, &b), outcome(k, &b, &a), outcome(j, &b, &a)];
    let q = [outcome(j, &b, &a), outcome(k, &b, &a), outcome(j, &a, &b), outcome(k, &a, &b)];
    trace(r[0]);
    cover(1 + (r[0] > 0) as u32);
    for i in 0..4 {
        check(r[i] == q[3 - i], 1 + i as u32);
    }
}
/// P37: a call after others against the same call on its own
#[no_mangle]
pub extern "C" fn h_p37_fresh() {
    warm_spec();
    let (a, b) = two(b"1aA!");
    let (k, j) = (choice(6), choice(6));
    let want = isolated(&|| outcome(k, &a, &b));
    let (x, y) = [(a.as_str(), "1.0"), ("1!!2", b.as_str()), (b.as_str(), a.as_str()), ("abcdefghijklmnopqrstuvwxyz.1234567a-zz", "2+x")][choice(4)];
    outcome(j, x, y);
    outcome(j, y, x);
    trace(want);
    cover(1 + (want > 0) as u32);
    check(outcome(k, &a, &b) == want, 1);
    check(outcome(k, &a, &b) == want, 2);
}
/// P37: specs of one shape and length, one after the other, against each on its own
#[no_mangle]
pub extern "C" fn h_p37_shapes() {
    warm_spec();
    let al: &[u8] = b"12aB";
    let (a, b) = (sym_str(param(0), al), sym_str(param(0), al));
    let (p, q) = [("^", "$"), ("", ".*"), ("==", ""), ("1*", ""), (">=", ""), ("!=", "*"), ("", "@"), ("^(", "|x)$"), ("1|(", ",2)"), ("=", ""), ("x*", "*")][choice(11)];
    let ask = |x: &str| -> u64 {
        let t = cat!(p, x, q);
        match VersionSpecOrConstraintTree::try_from(t.as_str()) {
            Ok(s) => [a.as_str(), b.as_str(), "1", "12@", "1a2"].iter().fold(1, |r, v| r * 2 + s.test_match(v) as u64),
            Err(_) => 0,
        }
    };
    let want = isolated(&|| ask(&b));
    ask(&a);
    trace(want);
    cover(1 + (want > 0) as u32);
    check(ask(&b) == want, 1);
}
/// P37: specs of one shape and length after one another, each asked about several versions
#[no_mangle]
pub extern "C" fn h_p37_specs() {
    warm_spec();
    let al: &[u8] = b"12aB";
    let (a, b) = (sym_str(param(0), al), sym_str(param(0), al));
    let (p, q) = [("^", "$"), ("", ".*"), ("==", ""), ("1*", ""), (">=", ""), ("!=", "*"), ("", "@"), ("^(", "|x)$")][choice(8)];
    let f = |x: &str| cat!(p, x, q);
    let ask = |x: &str| -> (u64, bool) {
        let t = f(x);
        match ronda::verif_hooks::VersionSpec::try_from(t.as_str()) {
            Ok(s) => {
                let mut r = 1;
                for v in [a.as_str(), b.as_str(), "1", "12@", "1a2"].iter() {
                    r = r * 2 + s.test_match(v) as u64;
                }
                check(eq_bytes(s.get_spec().as_bytes(), t.as_bytes()), 9);
                (r, s.is_exact())
            }
            Err(_) => (0, false),
        }
    };
    let r = [ask(&a), ask(&b)];
    let q = [ask(&b), ask(&a)];
    trace(r[0].0);
    cover(1 + (r[0].0 > 0) as u32);
    check(r[0] == q[1], 1);
    check(r[1] == q[0], 2);
    if eq_bytes(a.as_bytes(), b.as_bytes()) {
        check(r[0] == r[1], 3);
    }
}
/// P37: a third text in between; values made before keep their answers
#[no_mangle]
pub extern "C" fn h_p37_keep() {
    warm_spec();
    let al: &[u8] = b"01aA.";
    let (a, b) = two(al);
    let (x, y) = (parse_ok(&a), parse_ok(&b));
    let f = cat!([">=", "!=", "=", ""][choice(4)], a, ["", ".*"][choice(2)]);
    let spec = ronda::verif_hooks::VersionSpec::try_from(f.as_str());
    let ask = || -> (u64, u64, u64) {
        let m = match &spec {
            Ok(s) => 1 + s.test_match_version(&y) as u64,
            Err(_) => 0,
        };
        (x.compare_version(&y) as u64, x.startswith(&y) as u64 * 2 + y.startswith(&x) as u64, m)
    };
    let r = ask();
    let third = ["1.0", "1!!2", "abcdefghijklmnopqrstuvwxyz.1234567a-zz", "2+x", ""][choice(5)];
    let k = choice(6);
    outcome(k, third, &b);
    outcome(k, &b, third);
    let q = ask();
    trace(r.0 * 16 + r.1 * 4 + r.2);
    cover(10 + (r.2 > 1) as u32);
    check(r == q, 1);
    check(eq_bytes(x.as_str().as_bytes(), a.as_bytes()) && eq_bytes(y.as_str().as_bytes(), b.as_bytes()), 2);
}
