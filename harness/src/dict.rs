//! Versions as people write them: the words release names are made of, every text one letter away
//! from one of them, numbers of any digits behind them, and any word of a few letters.
use crate::cat;
use crate::gen::*;
use crate::oracle::*;
use crate::parts::part_check;
use crate::rt::*;
use crate::spec::{operator, spec_total, wild};
use crate::ver::*;
use ronda::*;
use std::cmp::Ordering;

pub const DICT: [&str; 40] = [
    "a", "rc", "dev", "post", "beta", "pre", "final", "alpha", "b", "c", "preview", "release", "rev", "r", "v", "p", "patch", "nightly", "snapshot", "ga",
    "stable", "candidate", "test", "x", "sp", "build", "git", "m", "milestone", "cr", "devel", "develop", "poster", "posts", "inf", "nan", "latest", "e", "hotfix", "lts",
];
/// One of the first `n` words.
pub fn plain(n: usize) -> &'static str { DICT[choice(n)] }
/// One of the first `n` words with one of its letters replaced by any letter, so that the word
/// itself, two spellings of it and everything one letter away are all there.
pub fn near(n: usize) -> String {
    let w = plain(n);
    let i = choice(w.len());
    cat!(&w[..i], sym_str(1, LETTERS), &w[i + 1..])
}
/// A word in every mixture of upper and lower case.
fn cased(w: &str) -> String {
    let v: Vec<u8> = w.bytes().map(|c| u8_in(&[c, c ^ 32])).collect();
    unsafe { String::from_utf8_unchecked(v) }
}
/// A whole version around a word: something before it, a number behind it, something after that.
fn around(w: &str, digits: usize) -> String {
    let pre = ["1.0", "", "2!3.1-", "v", "1.2.3."][choice(5)];
    let suf = ["", ".post1", "-dev3", "+lo.cal.1", "_4b"][choice(5)];
    cat!(pre, w, sym_str_upto(0, digits, DIGITS), suf)
}
#[no_mangle]
pub extern "C" fn h_p01_dict() {
    warm();
    total(&around(&near(param(0)), param(1)));
}
#[no_mangle]
pub extern "C" fn h_p02_dict() {
    warm();
    verbatim(&around(&near(param(0)), param(1)));
}
#[no_mangle]
pub extern "C" fn h_p03_dict() {
    warm();
    decomp(&around(&near(param(0)), param(1)));
}
/// P03: any word of letters between numbers
#[no_mangle]
pub extern "C" fn h_p03_any() {
    warm();
    let w = sym_str_upto(1, param(0), LETTERS);
    decomp(&cat!("1.0", w, ["", "2", ".dev", "+x"][choice(4)]));
}
#[no_mangle]
pub extern "C" fn h_p04_dict() {
    warm();
    let w = around(&near(param(0)), param(1));
    let m = ["", "!", "+"][choice(3)];
    accept(&if choice(2) == 0 { cat!(m, w) } else { cat!(w, m) });
}
#[no_mangle]
pub extern "C" fn h_p05_dict() {
    warm();
    let (w, x) = (near(param(0)), plain(4));
    let d = sym_str_upto(0, 1, DIGITS);
    let t = |o: &str| cat!("1", sym_str(1, b"._-"), "2", sym_str(1, b"._-"), w, o, d, sym_str(1, b"._-"), x, "+a-b");
    sep_same(&t(""), &t(""));
    // a separator between a word and a number is the same as none
    if !d.is_empty() {
        sep_same(&t(""), &t("-"));
    }
}
/// A pair of versions that differ in a word, a number behind it, or in having them.
fn pair(n: usize, m: usize) -> (String, String) {
    let (r, e) = [("1.0", ""), ("2!3.", "+1.x"), ("", ".1"), ("2019.4.12.", "")][choice(4)];
    let a = cat!(r, near(n), sym_str_upto(0, 1, b"019"), e);
    let b = match choice(3) {
        0 => cat!(r, plain(m), ["", "1"][choice(2)], e),
        1 => cat!(r, e),
        _ => cat!(r, ".", plain(m), "-", plain(3), e),
    };
    (a, b)
}
#[no_mangle]
pub extern "C" fn h_p06_dict() {
    warm();
    let (a, b) = pair(param(0), param(1));
    consistent_str(&parse_ok(&a), &parse_ok(&b), &b);
}
#[no_mangle]
pub extern "C" fn h_p07_dict() {
    warm();
    let r = ["1.0", "1."][choice(2)];
    let a = parse_ok(&cat!(r, near(param(0))));
    let t = |m: usize| -> Version {
        match choice(2) {
            0 => parse_ok(&cat!(r, plain(m), ["", "2"][choice(2)])),
            _ => parse_ok(&cat!(r, ["1", "0.1", "dev", "1.post"][choice(4)])),
        }
    };
    let (b, c) = (t(param(1)), t(param(1)));
    match choice(3) {
        0 => transitive(&a, &b, &c),
        1 => transitive(&b, &a, &c),
        _ => transitive(&b, &c, &a),
    }
}
/// P09: words of the dictionary and their neighbours against each other
#[no_mangle]
pub extern "C" fn h_p09_dict() {
    warm();
    let s = near(param(0));
    let t = match choice(2) {
        0 => ["", "dev", "post", "n"][choice(4)],
        _ => plain(param(1)),
    };
    if choice(2) == 0 {
        phase("1.0", &s, t, "", "");
    } else {
        phase("2.5.1", t, &s, ".", "-");
    }
}
/// P09: any word
#[no_mangle]
pub extern "C" fn h_p09_any() {
    warm();
    let s = sym_str_upto(1, param(0), LETTERS);
    phase("1.0", &s, ["", "dev", "post", "n"][choice(4)], "", ".");
}
#[no_mangle]
pub extern "C" fn h_p10_dict() {
    warm();
    let (a, b) = pair(param(0), param(1));
    // what follows an epoch has none itself
    assume(!a.contains('!') && !b.contains('!'));
    let (e, f) = (sym_str(1, b"013"), ["0", "2"][choice(2)]);
    let o = e.as_bytes()[0].cmp(&f.as_bytes()[0]);
    assume(o != Ordering::Equal);
    cover(1);
    check(ordering(&parse_ok(&cat!(e, "!", a)), &parse_ok(&cat!(f, "!", b)), 1) == o, 2);
}
#[no_mangle]
pub extern "C" fn h_p11_dict() {
    warm();
    let w = plain(param(0));
    let (p, q) = [("1.0", ""), ("1.", "2"), ("", ".5"), ("2!3-", "+Loc")][choice(4)];
    let (x, y) = (cased(w), cased(w));
    let t = match choice(3) {
        0 => cat!(p, plain(4), q),
        1 => cat!(p, w, q),
        _ => "1.0".to_string(),
    };
    case_same(&cat!(p, x, q), &cat!(p, y, q), &t);
}
/// P11: any word
#[no_mangle]
pub extern "C" fn h_p11_any() {
    warm();
    let s = sym_str_upto(1, param(0), LETTERS);
    let m: Vec<u8> = s.bytes().map(|c| c ^ 32).collect();
    let m = unsafe { String::from_utf8_unchecked(m) };
    let p = ["1.0", "1.", ""][choice(3)];
    case_same(&cat!(p, s), &cat!(p, m), &cat!(p, ["", "dev", "post", "m"][choice(4)]));
}
fn label(x: &str, y: &str) {
    let p = ["1.0", "2!1.0rc1", "1.post2"][choice(3)];
    let o = cmp_bytes(x.as_bytes(), y.as_bytes());
    let (a, b) = (parse_ok(&cat!(p, "+", x)), parse_ok(&cat!(p, "+", y)));
    trace(ord_code(o));
    cover(1 + ord_code(o) as u32);
    check(ordering(&a, &b, 1) == o, 2);
    check((a == b) == (o == Ordering::Equal), 3);
    check(ordering(&a, &parse_ok(p), 1) == Ordering::Greater, 4);
}
/// P12: labels made of words, numbers and separators
#[no_mangle]
pub extern "C" fn h_p12_dict() {
    warm();
    let e = ["", ".1", "-2", "10"][choice(4)];
    let f = ["", ".1", "_2", "9"][choice(4)];
    label(&cat!(near(param(0)), e), &cat!(plain(param(1)), f));
}
/// P12: labels of numbers compare as text
#[no_mangle]
pub extern "C" fn h_p12_number() {
    warm();
    let s = || cat!(["", "r", "0."][choice(3)], sym_str_upto(1, param(0), DIGITS), ["", ".1", "a"][choice(3)]);
    label(&s(), &s());
}
#[no_mangle]
pub extern "C" fn h_p13_dict() {
    warm();
    let (a, b) = pair(param(0), param(1));
    let (a, b) = (parse_ok(&a), parse_ok(&b));
    sw(&a, &b);
    sw(&b, &a);
}
#[no_mangle]
pub extern "C" fn h_p16_dict() {
    warm_spec();
    let (a, b) = (cat!("1.0", near(param(0))), cat!("1.0", ["", "."][choice(2)], plain(param(1))));
    if choice(2) == 0 {
        operator(&a, &b)
    } else {
        operator(&b, &a)
    }
}
#[no_mangle]
pub extern "C" fn h_p17_dict() {
    warm_spec();
    let a = cat!("1.0", near(param(0)));
    let b = cat!("1.0", ["", "."][choice(2)], plain(param(1)));
    if choice(2) == 0 {
        wild(&a, &cat!(b, ["", ".1", "2"][choice(3)]))
    } else {
        wild(&b, &cat!(a, ["", ".1", "2"][choice(3)]))
    }
}
#[no_mangle]
pub extern "C" fn h_p18_dict() {
    warm_spec();
    let op = ["", "=", "==", "!=", "<", "<=", ">", ">=", "~=", "!", "~", "=<", "==="][choice(13)];
    spec_total(&cat!(op, ["", " "][choice(2)], ["1.0", "2!"][choice(2)], near(param(0)), ["", ".*", "*", "+1", "+"][choice(5)]));
}
#[no_mangle]
pub extern "C" fn h_p30_dict() {
    warm();
    let (w, x) = (near(param(0)), plain(param(1)));
    let e = ["", "1"][choice(2)];
    match choice(3) {
        0 => part_check(&pep(&cat!(w, e)), &pep(x)),
        1 => part_check(&VersionPart::LexicographicString(cat!(w, e)), &VersionPart::LexicographicString(x.to_string())),
        _ => part_check(&pep(&w), &pep(["", "zz"][choice(2)])),
    }
}
#[no_mangle]
pub extern "C" fn h_p39_dict() {
    warm();
    let (a, b) = pair(param(0), param(1));
    first_decides(&parse_ok(&a), &parse_ok(&b));
}

// ------------------------------------------------------------------ beyond ASCII
/// A character that is neither a letter with case nor a digit: one of the first `param` of 31 ideographs, kana or faces.
fn sign() -> String {
    let c = |lo: usize| u8_in(&TRAIL[lo..lo + param(0)]);
    let v = match choice(3) {
        0 => vec![0xe4, 0xb8, c(0)],
        1 => vec![0xef, 0xbd, c(33)],
        _ => vec![0xf0, 0x9f, 0x98, c(32)],
    };
    unsafe { String::from_utf8_unchecked(v) }
}
const TRAIL: &[u8] = &{
    let mut a = [0u8; 64];
    let mut i = 0;
    while i < 64 {
        a[i] = 128 + i as u8;
        i += 1;
    }
    a
};
/// As `warm`, over texts with such characters.
fn warm_utf8() {
    warm();
    let mut n = 0;
    for c in ["\u{4e00}", "\u{4e3f}", "\u{ff61}", "\u{ff7f}", "\u{1f600}", "\u{1f63f}", "\u{e4}"].iter() {
        for f in ["{}", "a{}", "{}z", "dev{}", "{}POST{}", "1{}2", "1.{}3", "{}.4", "2!{}9", "a1-{}", "{}+x", "{}-\u{e9}4", "1{}\u{e9}", "{}Z", "Z{}", "z{}"].iter() {
            let w = f.replace("{}", c);
            for r in ["", "1.", "1.0", "2!1", "a1-"].iter() {
                for e in ["", "2", ".3", "+x", "-\u{e9}4"].iter() {
                    if let Ok(v) = cat!(r, w, e).parse::<Version>() {
                        n += v.part_count();
                    }
                }
            }
            for y in ["1.dev", "1.post", "1.\u{e4}", "1.a", "1", "1.zz", "1.9", "1.\u{4e00}", "1.\u{ff61}", "1.\u{1f600}"].iter() {
                if let (Ok(x), Ok(y)) = (cat!("1.", w).parse::<Version>(), y.parse::<Version>()) {
                    n += (x < y) as usize + (y < x) as usize;
                }
            }
        }
    }
    assert!(n > 0);
}
/// A word that holds such a character.
fn uword() -> String {
    let c = sign();
    match choice(5) {
        0 => c,
        1 => cat!(sym_str(1, b"aZ"), c),
        2 => cat!(c, "z"),
        3 => cat!("dev", c),
        _ => cat!(c, "POST", c),
    }
}
#[no_mangle]
pub extern "C" fn h_p03_utf8() {
    warm_utf8();
    decomp(&cat!(["", "1", "1.", "2!", "a1-"][choice(5)], uword(), ["", "2", ".3", "+x", "-\u{e9}4"][choice(5)]));
}
#[no_mangle]
pub extern "C" fn h_p05_utf8() {
    warm_utf8();
    let (w, d) = (uword(), sym_str_upto(0, 1, b"19"));
    let t = || cat!("1", sym_str(1, b"._-"), w, sym_str(1, b"._-"), d, sym_str(1, b"._-"), "2");
    sep_same(&t(), &t());
}
fn upair() -> (String, String) {
    let r = ["1.", "2!1"][choice(2)];
    let t = || match choice(3) {
        0 => uword(),
        1 => sym_str_upto(0, 1, b"9zA"),
        _ => ["dev", "post", "\u{e4}"][choice(3)].to_string(),
    };
    (cat!(r, uword()), cat!(r, t(), ["", ".1"][choice(2)]))
}
#[no_mangle]
pub extern "C" fn h_p06_utf8() {
    warm_utf8();
    let (a, b) = upair();
    consistent_str(&parse_ok(&a), &parse_ok(&b), &b);
}
#[no_mangle]
pub extern "C" fn h_p09_utf8() {
    warm_utf8();
    let t = match choice(3) {
        0 => uword(),
        1 => ["", "dev", "post", "rc"][choice(4)].to_string(),
        _ => sym_str(1, b"azZ"),
    };
    phase("1.0", &uword(), &t, "", ".");
}
#[no_mangle]
pub extern "C" fn h_p12_utf8() {
    warm_utf8();
    let t = if choice(2) == 0 { uword() } else { sym_str(1, ASCII_NO_MARK) };
    label(&uword(), &t);
}
#[no_mangle]
pub extern "C" fn h_p13_utf8() {
    warm_utf8();
    let (a, b) = upair();
    let (a, b) = (parse_ok(&a), parse_ok(&b));
    sw(&a, &b);
    sw(&b, &a);
}
#[no_mangle]
pub extern "C" fn h_p16_utf8() {
    warm_spec();
    warm_utf8();
    let a = cat!("1.", uword());
    let b = ["1.dev", "1.z", "1.\u{4e00}", "1", "1.a\u{1f620}"][choice(5)];
    if choice(2) == 0 {
        operator(&a, b)
    } else {
        operator(b, &a)
    }
}
#[no_mangle]
pub extern "C" fn h_p17_utf8() {
    warm_spec();
    warm_utf8();
    let a = cat!("1.", uword());
    let b = ["1.dev", "1.z", "1.\u{4e00}", "1", "1.a\u{1f620}"][choice(5)];
    if choice(2) == 0 {
        wild(&a, b)
    } else {
        wild(b, &a)
    }
}
#[no_mangle]
pub extern "C" fn h_p30_utf8() {
    warm_utf8();
    let t = if choice(2) == 0 { uword() } else { sym_str_upto(0, 1, ASCII) };
    let w = uword();
    if choice(2) == 0 {
        part_check(&pep(&w), &pep(&t))
    } else {
        part_check(&VersionPart::LexicographicString(w), &VersionPart::LexicographicString(t))
    }
}
#[no_mangle]
pub extern "C" fn h_p39_utf8() {
    warm_utf8();
    let (a, b) = upair();
    first_decides(&parse_ok(&a), &parse_ok(&b));
}
