//! Generators of symbolic versions and specs shared by the entries.
use crate::cat;
use crate::rt::*;
use ronda::verif_hooks::{PEP440String, Spec, VersionSpec};
use ronda::*;
use std::convert::TryFrom;

/// Run representative concrete inputs first, so that lazily built regexes and their caches are
/// shared by every path instead of being rebuilt on each.
pub fn warm() {
    let a: Version = "1!2.3a4.post5_dev6-x.Post.DEV.rc+lo.cal".parse().unwrap();
    let b: Version = "1!2.3a4.post5_dev6-x.Post.DEv.rc.9zz.a0+lo.cam".parse().unwrap();
    let c: Version = "1!2.3ab.pos.de.ost.ev.p.d.v.s.t.o.e.D.P".parse().unwrap();
    let d: Version = "1!2.3xb.poa.da.zst.aev.ppost.ddev.vv.ss.tt.oo.ee.D.P".parse().unwrap();
    let mut n = 0;
    for x in [&a, &b, &c, &d].iter() {
        for y in [&a, &b, &c, &d].iter() {
            n += (x.compare_version(y) == CompOp::Lt) as u32 + x.startswith(y) as u32;
        }
    }
    for (x, y) in [("1.a", "1.dev"), ("1.post", "1.a"), ("1.dev", "1.de"), ("1.pos", "1.pposta"), ("1.ddev", "1.deva"), ("1.zz", "1.Zy"), ("1.adevb", "1.apostb"), ("1.dee", "1.po")].iter() {
        let (x, y): (Version, Version) = (x.parse().unwrap(), y.parse().unwrap());
        n += (x < y) as u32;
    }
    assert!(n > 0);
}
pub fn warm_spec() {
    warm();
    let mut n = 0;
    for s in ["==1.0", "!=1.*", ">=1", "<1", ">1", "<=1", "=1.0", "~1", "1.*", "1.0", "~~1", "==a", "= 1", "=", "==", "<\t", "!b", "!=zz.*", "==1a_b-c+d!e"].iter() {
        if let Ok(v) = VersionSpec::try_from(*s) {
            n += v.test_match("1.0") as u32;
        }
    }
    for s in ["(1.0|2.0),3.0", "1.0", "^1", "(1|2|(3,4)", "1 , 2", "a)b", "1.*|>=2,<3", " ( 1 ) ", "^(1|2)", "", "()", "*"].iter() {
        if let Ok(v) = treeify(s) {
            n += v.test_match("1.0") as u32;
        }
        if let Ok(v) = VersionSpecOrConstraintTree::try_from(*s) {
            n += v.test_match("1.0") as u32;
        }
    }
    assert!(n > 0);
}

pub fn parse_ok(s: &str) -> Version {
    match s.parse::<Version>() {
        Ok(v) => v,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
/// A decimal number of 1..=max digits.
pub fn num(max: usize) -> String { sym_str_upto(1, max, DIGITS) }

pub const WORDS: &[&str] = &["a", "dev", "post", "rc"];
/// One text component: a symbolic letter or one of the words with a rank of their own.
pub fn word() -> String {
    match choice(4) {
        0 => sym_str(1, LETTERS),
        1 => "dev".to_string(),
        2 => "post".to_string(),
        _ => "rC".to_string(),
    }
}
/// Component: number or word.
pub fn comp() -> String {
    if choice(2) == 0 {
        sym_str(1, DIGITS)
    } else {
        word()
    }
}
/// `lo..=hi` components, joined with '.'
pub fn dotted(lo: usize, hi: usize) -> String {
    let n = lo + choice(hi - lo + 1);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push('.');
        }
        s = cat!(s, comp());
    }
    s
}

pub fn mk(parts: Vec<VersionPart>) -> Version {
    match Version::parse("", &move |_| Ok(parts.clone())) {
        Ok(v) => v,
        Err(_) => unreachable!(),
    }
}
pub fn pep(s: &str) -> VersionPart { VersionPart::PEP440String(PEP440String::from(s)) }
/// A component as the parser can produce it: any non-negative 32-bit number or a word.
pub fn any_part() -> VersionPart {
    match choice(4) {
        0 => {
            let v = u32_any();
            assume(v <= i32::MAX as u32);
            VersionPart::Integer(v as i32)
        }
        1 => pep(&sym_str(1, b"abyzAZ")),
        2 => pep("dev"),
        _ => pep("Post"),
    }
}
/// Parts of a parsed version: optional epoch, components, optional local label.
pub fn any_parts(lo: usize, hi: usize, epoch: bool, local: bool) -> Vec<VersionPart> {
    let mut v = vec![];
    if epoch && choice(2) == 1 {
        let e = u32_any();
        assume(e >= 1 && e <= 32767);
        v.push(VersionPart::Epoch(e as i16));
    }
    let n = lo + choice(hi - lo + 1);
    for _ in 0..n {
        v.push(any_part());
    }
    if local && choice(2) == 1 {
        v.push(VersionPart::LexicographicString(sym_str(1, b"0129aAzZ.")));
    }
    if v.is_empty() {
        v.push(VersionPart::Empty);
    }
    v
}
