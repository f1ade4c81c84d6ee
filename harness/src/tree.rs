//! Compound specs: treeify, untreeify and ConstraintTree.
use crate::cat;
use crate::gen::*;
use crate::oracle::*;
use crate::rt::*;
use crate::spec::{ref_valid, spec_ok};
use ronda::verif_hooks::{Spec, VersionSpec};
use ronda::*;
use std::convert::TryFrom;

/// Reference tokenizer and recursive-descent evaluator of spec expressions over one version.
/// '|' is or, ',' is and and binds tighter, parentheses group, white space around tokens is ignored,
/// '^...$' is one token.
enum Tok {
    Op(u8),
    Atom(String),
}
fn ws(c: u8) -> bool { c == b' ' || (c >= 9 && c <= 13) }
fn is_op(c: u8) -> bool { c == b'(' || c == b')' || c == b'|' || c == b',' }
fn tokens(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if ws(b[i]) {
            i += 1;
            continue;
        }
        if is_op(b[i]) {
            out.push(Tok::Op(b[i]));
            i += 1;
            continue;
        }
        let mut j = i;
        if b[i] == b'^' {
            while j < b.len() && b[j] != b'$' {
                j += 1;
            }
            if j < b.len() {
                out.push(Tok::Atom(s[i..=j].to_string()));
                i = j + 1;
                continue;
            }
            j = i;
        }
        while j < b.len() && !is_op(b[j]) {
            j += 1;
        }
        let mut e = j;
        while e > i && ws(b[e - 1]) {
            e -= 1;
        }
        out.push(Tok::Atom(s[i..e].to_string()));
        i = j;
    }
    out
}
/// How atoms are judged: None = malformed.
type Atom<'a> = &'a dyn Fn(&str) -> Option<bool>;
fn expr(t: &[Tok], i: &mut usize, f: Atom) -> Option<bool> {
    let mut v = term(t, i, f)?;
    while *i < t.len() {
        match t[*i] {
            Tok::Op(b'|') => {
                *i += 1;
                let w = term(t, i, f)?;
                v = v | w;
            }
            _ => break,
        }
    }
    Some(v)
}
fn term(t: &[Tok], i: &mut usize, f: Atom) -> Option<bool> {
    let mut v = factor(t, i, f)?;
    while *i < t.len() {
        match t[*i] {
            Tok::Op(b',') => {
                *i += 1;
                let w = factor(t, i, f)?;
                v = v & w;
            }
            _ => break,
        }
    }
    Some(v)
}
fn factor(t: &[Tok], i: &mut usize, f: Atom) -> Option<bool> {
    if *i >= t.len() {
        return None;
    }
    match &t[*i] {
        Tok::Op(b'(') => {
            *i += 1;
            let v = expr(t, i, f)?;
            if *i < t.len() {
                if let Tok::Op(b')') = t[*i] {
                    *i += 1;
                    return Some(v);
                }
            }
            None
        }
        Tok::Atom(a) => {
            *i += 1;
            f(a)
        }
        _ => None,
    }
}
pub fn ref_eval(s: &str, f: Atom) -> Option<bool> {
    let t = tokens(s);
    let mut i = 0;
    let v = expr(&t, &mut i, f)?;
    if i == t.len() {
        Some(v)
    } else {
        None
    }
}

/// A random expression (by symbolic choices) of at most `atoms` atoms, redundant parentheses included.
pub fn gen_expr(atoms: usize) -> String {
    let mut left = atoms;
    gen(&mut left, 0)
}
pub const ATOMS: [&str; 4] = ["1", "9", "<5", "1.*"];
fn gen(left: &mut usize, depth: usize) -> String {
    if *left <= 1 || depth >= 3 {
        *left = left.saturating_sub(1);
        return ATOMS[choice(2)].to_string();
    }
    match choice(4) {
        0 => {
            *left -= 1;
            ATOMS[choice(2)].to_string()
        }
        1 => {
            let a = gen(left, depth + 1);
            if *left == 0 {
                return a;
            }
            let b = gen(left, depth + 1);
            cat!(a, ",", b)
        }
        2 => {
            let a = gen(left, depth + 1);
            if *left == 0 {
                return a;
            }
            let b = gen(left, depth + 1);
            cat!(a, "|", b)
        }
        _ => cat!("(", gen(left, depth + 1), ")"),
    }
}

pub fn one(a: &str) -> Option<bool> {
    match VersionSpec::try_from(a) {
        Ok(s) => Some(s.test_match("1")),
        Err(_) => None,
    }
}
/// P21/P22: the tree must accept "1" exactly when the reference evaluation says so.
pub fn semantics(s: &str) {
    let want = ref_eval(s, &one);
    let v: Version = "1".parse().unwrap();
    match (treeify(s), want) {
        (Ok(t), Some(w)) => {
            cover(1 + w as u32);
            trace(w as u64);
            check(t.test_match_version(&v) == w, 1);
            check(t.test_match("1") == w, 2);
            match VersionSpecOrConstraintTree::try_from(s.trim()) {
                Ok(x) => check(x.test_match_version(&v) == w && x.test_match("1") == w, 3),
                Err(_) => check(false, 4),
            }
        }
        // which texts are rejected is P22's business
        (t, _) => {
            cover(3);
            trace(2 + t.is_err() as u64)
        }
    }
}
/// P21: all texts over operators, two specs and white space
#[no_mangle]
pub extern "C" fn h_p21_text() {
    warm_spec();
    let s = sym_str_upto(1, param(0), b"()|,19");
    semantics(&s);
}
/// P21: white space and longer specs
#[no_mangle]
pub extern "C" fn h_p21_space() {
    warm_spec();
    const T: [&str; 14] = ["(", ")", "|", ",", "1", "9", " ", "\t", "^1$", "^(1|2)$", "1.*", ">=9,", "!=1", "*"];
    let n = 1 + choice(param(0));
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(T[choice(14)]);
    }
    semantics(&s);
}
/// P21: well-formed expressions of several operators
#[no_mangle]
pub extern "C" fn h_p21_expr() {
    warm_spec();
    let s = gen_expr(param(0));
    semantics(&s);
}
/// P21: flat chains of alternating operators with every truth assignment
#[no_mangle]
pub extern "C" fn h_p21_chain() {
    warm_spec();
    let n = param(0);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str([",", "|", ",(", "|(", "),", ")|"][choice(6)]);
        }
        s.push_str(["1", "9"][choice(2)]);
    }
    // close what is open; the choices that close too much are not well formed and left to P22
    let mut open = 0i32;
    for c in s.bytes() {
        open += (c == b'(') as i32 - (c == b')') as i32;
        assume(open >= 0);
    }
    for _ in 0..open {
        s.push(')');
    }
    semantics(&s);
}
/// P21: the value of symbolic version texts under compound specs
#[no_mangle]
pub extern "C" fn h_p21_version() {
    warm_spec();
    let x = sym_str_upto(0, param(0), b"01239a.");
    let v = parse_ok(&x);
    let s = [">=1,<2|>3", "(1|2.*),!=2.1", ">1,(<2|3),!=1.9*", "1|2|3", "1,1.0,=1", "((<2))|((>3,!=9))", "!=1.*,!=2.*"][choice(7)];
    let at = |a: &str| -> Option<bool> { Some(spec_ok(a).test_match_version(&v)) };
    match (ref_eval(s, &at), treeify(s), VersionSpecOrConstraintTree::try_from(s)) {
        (Some(w), Ok(t), Ok(u)) => {
            cover(1 + w as u32);
            trace(w as u64);
            check(t.test_match_version(&v) == w, 1);
            check(u.test_match_version(&v) == w && u.test_match(&x) == w, 2);
        }
        _ => check(false, 3),
    }
}
/// P21: a list with a leading combinator means all / any of its members
#[no_mangle]
pub extern "C" fn h_p21_list() {
    warm_spec();
    let n = choice(param(0) + 1);
    const A: [&str; 6] = ["1", "9", ">0,<5", "9|8", "*", "(1|9),!=2"];
    let and = choice(2) == 0;
    let mut v = vec![if and { "," } else { "|" }];
    let mut want = and;
    for _ in 0..n {
        let a = A[choice(6)];
        v.push(a);
        let m = ref_eval(a, &one).unwrap();
        want = if and { want & m } else { want | m };
    }
    match ConstraintTree::try_from(v) {
        Ok(t) => {
            cover(1 + want as u32);
            trace(want as u64);
            check(t.test_match("1") == want, 1);
            check(t.combinator == if and { Combinator::And } else { Combinator::Or } && t.parts.len() == n, 2);
        }
        Err(_) => check(false, 3),
    }
}

fn valid(a: &str) -> Option<bool> {
    match ref_valid(a) {
        Some(true) => Some(true),
        Some(false) => None,
        // a regular expression: the regex crate decides
        None => VersionSpec::try_from(a).ok().map(|_| true),
    }
}
pub fn accept(s: &str) {
    let want = ref_eval(s, &valid).is_some();
    let r = treeify(s);
    trace(r.is_ok() as u64);
    cover(1 + want as u32);
    check(r.is_ok() == want, 1);
    let u = VersionSpecOrConstraintTree::try_from(s);
    if s.bytes().any(|c| is_op(c)) {
        check(u.is_ok() == want, 2);
    }
    if let Ok(t) = r {
        check(t.parts.len() > 0, 3);
    }
}
/// P22: any ASCII text
#[no_mangle]
pub extern "C" fn h_p22_ascii() {
    warm_spec();
    let s = sym_str_upto(0, param(0), ASCII);
    accept(&s);
}
#[no_mangle]
pub extern "C" fn h_p22_text() {
    warm_spec();
    let s = sym_str_upto(0, param(0), b"()|,1 ");
    accept(&s);
}
/// P22: token sequences, well formed or not
#[no_mangle]
pub extern "C" fn h_p22_toks() {
    warm_spec();
    const T: [&str; 12] = ["(", ")", "|", ",", "1", "<", "=1", "^1$", "^", "$", "1.*", "!"];
    let n = choice(param(0) + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(T[choice(12)]);
    }
    accept(&s);
}
/// P22: a long valid expression broken at one place
#[no_mangle]
pub extern "C" fn h_p22_broken() {
    warm_spec();
    const B: [&str; 4] = ["((1.5|((1.6|1.7),1.8),1.9|2.0))|2.1", "1,2,3,4,5,6,7,8|9", "((((((((1))))))))", "(1|2),(3|4),(5|6)"];
    let b = B[choice(4)];
    let at = choice(b.len() + 1);
    let s = match choice(3) {
        0 if at < b.len() => cat!(&b[..at], &b[at + 1..]),
        1 => cat!(&b[..at], sym_str(1, b"()|,1<! "), &b[at..]),
        _ if at < b.len() => cat!(&b[..at], sym_str(1, b"()|,1<! "), &b[at + 1..]),
        _ => b.to_string(),
    };
    accept(&s);
}
/// P22: deep nesting neither overflows nor is misjudged
#[no_mangle]
pub extern "C" fn h_p22_deep() {
    warm_spec();
    let n = [1, 7, 30, 64][choice(4)];
    let (l, r) = (n + choice(3), n + 1);
    let mut s = String::new();
    for i in 0..l {
        s.push_str(if i % 3 == 2 { "1|(" } else if i % 3 == 1 { "2,(" } else { "(" });
    }
    s.push_str(&sym_str_upto(0, 1, b"1,)"));
    for _ in 0..r {
        s.push(')');
    }
    accept(&s);
}
/// P22: lists of texts
#[no_mangle]
pub extern "C" fn h_p22_list() {
    warm_spec();
    const A: [&str; 11] = ["", ",", "|", "1", "==", "(1", "1|2", "1,", "^1", "x@y", "((1|2),3)"];
    let n = choice(param(0) + 1);
    let mut v = vec![];
    let mut ok = n > 0;
    for i in 0..n {
        let a = A[choice(11)];
        if i == 0 {
            ok &= a == "," || a == "|";
        } else {
            ok &= ref_eval(a, &valid).is_some();
        }
        v.push(a);
    }
    let r = ConstraintTree::try_from(v);
    trace(r.is_ok() as u64);
    cover(1 + ok as u32);
    check(r.is_ok() == ok, 1);
}

/// P23: text -> tree -> text -> tree keeps the meaning, and is stable
pub fn roundtrip(s: &str) {
    if let Ok(t) = treeify(s) {
        let w: VersionSpecOrConstraintTree = t.clone().into();
        let text = match untreeify(&w) {
            Ok(x) => x,
            Err(_) => {
                check(false, 1);
                return;
            }
        };
        check(eq_bytes(text.as_bytes(), t.get_spec().as_bytes()), 2);
        match treeify(&text) {
            Ok(u) => {
                cover(1);
                trace(text.len() as u64);
                check(u == t, 3);
                check(u.test_match("1") == t.test_match("1"), 4);
                check(Some(u.test_match("1")) == ref_eval(s, &one), 5);
                let x: VersionSpecOrConstraintTree = u.into();
                match untreeify(&x) {
                    Ok(y) => check(eq_bytes(y.as_bytes(), text.as_bytes()), 6),
                    Err(_) => check(false, 7),
                }
            }
            Err(_) => check(false, 8),
        }
    }
}
#[no_mangle]
pub extern "C" fn h_p23_text() {
    warm_spec();
    let s = sym_str_upto(1, param(0), b"()|,19");
    roundtrip(&s);
}
#[no_mangle]
pub extern "C" fn h_p23_expr() {
    warm_spec();
    let s = gen_expr(param(0));
    roundtrip(&s);
}
/// P23: specs of every kind survive
#[no_mangle]
pub extern "C" fn h_p23_kinds() {
    warm_spec();
    const K: [&str; 12] = ["1", "==1.0", "!=1.*", ">=0", "<5", "=1", "1.*", "*", "^1$", "^(1|2),?$", "1*0", "a@b"];
    let mut s = String::from(K[choice(12)]);
    let n = choice(param(0));
    for _ in 0..n {
        s = match choice(4) {
            0 => cat!(s, ",", K[choice(12)]),
            1 => cat!(s, "|", K[choice(12)]),
            2 => cat!("(", s, "),", K[choice(12)]),
            _ => cat!(K[choice(12)], ",(", s, ")"),
        };
    }
    roundtrip(&s);
}
/// Trees put together through the public fields.
pub fn gen_tree(parts: usize, depth: usize) -> VersionSpecOrConstraintTree {
    let k = if depth == 0 { 0 } else { choice(3) };
    if k == 0 {
        return VersionSpecOrConstraintTree::VersionSpec(spec_ok(["1", "9"][choice(2)]));
    }
    let n = 2 + choice(parts - 1);
    let p = (0..n).map(|_| gen_tree(parts, depth - 1)).collect();
    VersionSpecOrConstraintTree::ConstraintTree(ConstraintTree { combinator: if k == 1 { Combinator::And } else { Combinator::Or }, parts: p })
}
fn tree_eval(t: &VersionSpecOrConstraintTree) -> bool {
    match t {
        VersionSpecOrConstraintTree::VersionSpec(s) => s.test_match("1"),
        VersionSpecOrConstraintTree::ConstraintTree(c) => {
            let mut v = c.combinator == Combinator::And;
            for p in &c.parts {
                let w = tree_eval(p);
                v = if c.combinator == Combinator::And { v & w } else { v | w };
            }
            v
        }
    }
}
/// P23: any such tree has a text that means the same
#[no_mangle]
pub extern "C" fn h_p23_build() {
    warm_spec();
    let t = gen_tree(param(0), param(1));
    build_check(&t);
}
pub fn build_check(t: &VersionSpecOrConstraintTree) {
    let want = tree_eval(t);
    check(t.test_match("1") == want, 9);
    match untreeify(t) {
        Ok(s) => {
            trace(s.len() as u64);
            cover(1 + want as u32);
            check(ref_eval(&s, &one) == Some(want), 10);
            match treeify(&s) {
                Ok(u) => check(u.test_match("1") == want, 11),
                Err(_) => check(false, 12),
            }
        }
        Err(_) => check(false, 13),
    }
}
/// P23: lists built from text
#[no_mangle]
pub extern "C" fn h_p23_list() {
    warm_spec();
    const A: [&str; 5] = ["1", "9", ">0,<5", "9|8", "(1|9),!=2"];
    let n = 1 + choice(param(0));
    let mut v = vec![[",", "|"][choice(2)]];
    for _ in 0..n {
        v.push(A[choice(5)]);
    }
    match ConstraintTree::try_from(v) {
        Ok(t) => {
            let m = t.test_match("1");
            match untreeify(&t.into()) {
                Ok(s) => {
                    trace(s.len() as u64);
                    cover(1 + m as u32);
                    match treeify(&s) {
                        Ok(u) => check(u.test_match("1") == m, 14),
                        Err(_) => check(false, 15),
                    }
                }
                Err(_) => check(false, 16),
            }
        }
        Err(_) => check(false, 17),
    }
}

fn tree_same(a: &VersionSpecOrConstraintTree, b: &VersionSpecOrConstraintTree) -> bool {
    match (a, b) {
        (VersionSpecOrConstraintTree::VersionSpec(x), VersionSpecOrConstraintTree::VersionSpec(y)) => eq_bytes(x.get_spec().as_bytes(), y.get_spec().as_bytes()),
        (VersionSpecOrConstraintTree::ConstraintTree(x), VersionSpecOrConstraintTree::ConstraintTree(y)) => {
            let c = |c: &Combinator| match c {
                Combinator::And => 0,
                Combinator::Or => 1,
                Combinator::None => 2,
            };
            if c(&x.combinator) != c(&y.combinator) || x.parts.len() != y.parts.len() {
                return false;
            }
            for i in 0..x.parts.len() {
                if !tree_same(&x.parts[i], &y.parts[i]) {
                    return false;
                }
            }
            true
        }
        _ => false,
    }
}
/// Any tree, the odd ones (no parts, one part, no combinator) included.
fn odd_tree(parts: usize, depth: usize) -> VersionSpecOrConstraintTree {
    let k = if depth == 0 { 0 } else { choice(4) };
    if k == 0 {
        return VersionSpecOrConstraintTree::VersionSpec(spec_ok(["1", "1.0"][choice(2)]));
    }
    let n = choice(parts + 1);
    let p = (0..n).map(|_| odd_tree(parts, depth - 1)).collect();
    VersionSpecOrConstraintTree::ConstraintTree(ConstraintTree { combinator: [Combinator::And, Combinator::Or, Combinator::None][k - 1].clone(), parts: p })
}
pub fn compare(a: &VersionSpecOrConstraintTree, b: &VersionSpecOrConstraintTree) {
    let want = tree_same(a, b);
    trace(want as u64);
    cover(1 + want as u32);
    check((a == b) == want, 1);
    check((b == a) == want, 2);
    check(*a == a.clone() && *b == b.clone(), 3);
    if let (VersionSpecOrConstraintTree::ConstraintTree(x), VersionSpecOrConstraintTree::ConstraintTree(y)) = (a, b) {
        check((x == y) == want && (x != y) == !want, 4);
    }
}
/// P24: equality is structural
#[no_mangle]
pub extern "C" fn h_p24_eq() {
    warm_spec();
    let a = odd_tree(param(0), param(1));
    let b = odd_tree(param(0), param(1));
    compare(&a, &b);
}
/// P24: one difference anywhere in a larger tree
#[no_mangle]
pub extern "C" fn h_p24_edit() {
    warm_spec();
    let a = gen_tree(2, param(0));
    let mut b = a.clone();
    {
        let mut cur = &mut b;
        loop {
            match cur {
                VersionSpecOrConstraintTree::VersionSpec(_) => {
                    *cur = VersionSpecOrConstraintTree::VersionSpec(spec_ok(["1", "9", "1.0"][choice(3)]));
                    break;
                }
                VersionSpecOrConstraintTree::ConstraintTree(c) => match choice(4) {
                    0 => {
                        c.combinator = [Combinator::And, Combinator::Or, Combinator::None][choice(3)].clone();
                        break;
                    }
                    1 => {
                        c.parts.pop();
                        break;
                    }
                    2 => {
                        let i = choice(c.parts.len());
                        let p = c.parts[i].clone();
                        c.parts.push(p);
                        break;
                    }
                    _ => {
                        let i = choice(c.parts.len());
                        cur = &mut c.parts[i];
                    }
                },
            }
        }
    }
    compare(&a, &b);
}
/// P24: symbolic spec texts
#[no_mangle]
pub extern "C" fn h_p24_text() {
    warm_spec();
    let g = || -> VersionSpecOrConstraintTree {
        let s = cat!(["", "==", "1+"][choice(3)], sym_str_upto(1, param(0), b"1aA.0"));
        VersionSpecOrConstraintTree::VersionSpec(spec_ok(&s))
    };
    let (x, y) = (g(), g());
    let a = ConstraintTree { combinator: Combinator::And, parts: vec![x.clone(), x.clone()] };
    let b = ConstraintTree { combinator: Combinator::And, parts: vec![x.clone(), y.clone()] };
    compare(&x, &y);
    compare(&a.into(), &b.into());
}
/// P24: printing a tree terminates and names its specs
#[no_mangle]
pub extern "C" fn h_p24_debug() {
    warm_spec();
    let a = odd_tree(param(0), param(1));
    let s = format!("{:?}", a);
    let p = format!("{:#?}", a);
    trace(s.len() as u64);
    trace(p.len() as u64);
    cover(1);
    if let VersionSpecOrConstraintTree::ConstraintTree(c) = &a {
        let t = format!("{:?}", c);
        check(eq_bytes(t.as_bytes(), s.as_bytes()), 5);
        if let Ok(u) = untreeify(&a) {
            cover(2);
            check(s.len() == u.len() + 2 && eq_bytes(&s.as_bytes()[1..s.len() - 1], u.as_bytes()), 6);
            check(eq_bytes(a.get_spec().as_bytes(), u.as_bytes()), 7);
        }
    }
}
