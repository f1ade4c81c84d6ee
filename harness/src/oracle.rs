//! Reference models the real code is compared with.  Deliberately written without regexes and
//! without calling into the crate under test.
use crate::rt::*;
use ronda::{Version, VersionPart};
use std::cmp::Ordering;

#[derive(Clone)]
pub enum RP {
    Epoch(u32),
    Int(u32),
    Str(String),
    Local(String),
    Empty,
}

/// Reference decomposition of an ASCII version text; None = malformed.
pub fn ref_parse(s: &str) -> Option<Vec<RP>> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut bang = usize::MAX;
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'!' {
            if bang != usize::MAX {
                return None;
            }
            bang = i;
        }
        i += 1;
    }
    let mut start = 0;
    if bang != usize::MAX {
        // one or more digits, at most 32767
        if bang == 0 {
            return None;
        }
        let mut e: u32 = 0;
        let mut k = 0;
        while k < bang {
            if b[k] < b'0' || b[k] > b'9' {
                return None;
            }
            e = e * 10 + (b[k] - b'0') as u32;
            if e > 32767 {
                return None;
            }
            k += 1;
        }
        if e != 0 {
            out.push(RP::Epoch(e));
        }
        start = bang + 1;
    }
    let mut plus = usize::MAX;
    i = start;
    while i < b.len() {
        if b[i] == b'+' {
            if plus != usize::MAX {
                return None;
            }
            plus = i;
        }
        i += 1;
    }
    let end = if plus == usize::MAX { b.len() } else { plus };
    i = start;
    while i < end {
        let c = b[i];
        if c == b'.' || c == b'_' || c == b'-' {
            i += 1;
            continue;
        }
        let dig = c >= b'0' && c <= b'9';
        let mut j = i + 1;
        while j < end {
            let d = b[j];
            if d == b'.' || d == b'_' || d == b'-' || (d >= b'0' && d <= b'9') != dig {
                break;
            }
            j += 1;
        }
        if dig {
            let mut v: u64 = 0;
            let mut k = i;
            while k < j {
                v = v * 10 + (b[k] - b'0') as u64;
                if v > i32::MAX as u64 {
                    break;
                }
                k += 1;
            }
            if v > i32::MAX as u64 {
                out.push(RP::Str(s[i..j].to_string()));
            } else {
                out.push(RP::Int(v as u32));
            }
        } else {
            out.push(RP::Str(s[i..j].to_string()));
        }
        i = j;
    }
    if plus != usize::MAX && plus + 1 < b.len() {
        out.push(RP::Local(s[plus + 1..].to_string()));
    }
    if out.is_empty() {
        out.push(RP::Empty);
    }
    Some(out)
}

/// Does the real part carry exactly what the reference part says?
pub fn part_is(p: &VersionPart, r: &RP) -> bool {
    match (p, r) {
        (VersionPart::Epoch(a), RP::Epoch(b)) => *a as u32 == *b,
        (VersionPart::Integer(a), RP::Int(b)) => *a as u32 == *b,
        (VersionPart::PEP440String(a), RP::Str(b)) => eq_bytes(a.to_string().as_bytes(), b.as_bytes()),
        (VersionPart::LexicographicString(a), RP::Local(b)) => eq_bytes(a.as_bytes(), b.as_bytes()),
        (VersionPart::Empty, RP::Empty) => true,
        _ => false,
    }
}
/// Same kind and same content, the text case included.
pub fn same_part(p: &VersionPart, q: &VersionPart) -> bool {
    match (p, q) {
        (VersionPart::Epoch(a), VersionPart::Epoch(b)) => a == b,
        (VersionPart::Integer(a), VersionPart::Integer(b)) => a == b,
        (VersionPart::PEP440String(a), VersionPart::PEP440String(b)) => eq_bytes(a.to_string().as_bytes(), b.to_string().as_bytes()),
        (VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => eq_bytes(a.as_bytes(), b.as_bytes()),
        (VersionPart::Empty, VersionPart::Empty) => true,
        _ => false,
    }
}
pub fn same_parts(a: &Version, b: &Version) -> bool {
    let (x, y) = (a.parts(), b.parts());
    x.len() == y.len() && (0..x.len()).all(|i| same_part(&x[i], &y[i]))
}
pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
pub fn lower(b: u8) -> u8 {
    if b >= b'A' && b <= b'Z' {
        b + 32
    } else {
        b
    }
}
pub fn contains_ci(s: &[u8], w: &[u8]) -> bool {
    if s.len() < w.len() {
        return false;
    }
    for i in 0..=s.len() - w.len() {
        let mut m = true;
        for j in 0..w.len() {
            if lower(s[i + j]) != w[j] {
                m = false;
                break;
            }
        }
        if m {
            return true;
        }
    }
    false
}
pub fn cmp_ci(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    loop {
        if i == a.len() || i == b.len() {
            return a.len().cmp(&b.len());
        }
        let (x, y) = (lower(a[i]), lower(b[i]));
        if x < y {
            return Ordering::Less;
        }
        if x > y {
            return Ordering::Greater;
        }
        i += 1;
    }
}
pub fn cmp_bytes(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    loop {
        if i == a.len() || i == b.len() {
            return a.len().cmp(&b.len());
        }
        if a[i] < b[i] {
            return Ordering::Less;
        }
        if a[i] > b[i] {
            return Ordering::Greater;
        }
        i += 1;
    }
}
/// Rank of a text component: 0 dev, 1 any other text, 2 no text (release), 3 post.
pub fn text_class(s: &[u8]) -> u8 {
    if contains_ci(s, b"post") {
        3
    } else if s.is_empty() {
        2
    } else if contains_ci(s, b"dev") {
        0
    } else {
        1
    }
}
/// Order of two text components (the empty text = component absent).
pub fn cmp_text(a: &[u8], b: &[u8]) -> Ordering {
    let (x, y) = (text_class(a), text_class(b));
    if x != y {
        return x.cmp(&y);
    }
    if x == 1 {
        cmp_ci(a, b)
    } else {
        Ordering::Equal
    }
}
/// Components equal for the purpose of ordering and prefix tests.
pub fn part_equiv(p: &VersionPart, q: &VersionPart) -> bool {
    match (p, q) {
        (VersionPart::PEP440String(a), VersionPart::PEP440String(b)) => cmp_text(a.to_string().as_bytes(), b.to_string().as_bytes()) == Ordering::Equal,
        _ => same_part(p, q),
    }
}
pub fn ref_startswith(a: &Version, b: &Version) -> bool {
    let (x, y) = (a.parts(), b.parts());
    if y.len() > x.len() {
        return false;
    }
    (0..y.len()).all(|i| part_equiv(&x[i], &y[i]))
}

fn absent(p: &VersionPart) -> VersionPart {
    match p {
        VersionPart::Epoch(_) => VersionPart::Epoch(0),
        VersionPart::Integer(_) => VersionPart::Integer(0),
        VersionPart::LexicographicString(_) => VersionPart::LexicographicString(String::new()),
        VersionPart::PEP440String(_) => VersionPart::PEP440String(ronda::verif_hooks::PEP440String::from("")),
        VersionPart::Empty => VersionPart::Empty,
    }
}
fn kind(p: &VersionPart) -> u8 {
    match p {
        VersionPart::Epoch(_) => 4,
        VersionPart::Integer(_) => 3,
        VersionPart::LexicographicString(_) => 2,
        VersionPart::PEP440String(_) => 1,
        VersionPart::Empty => 0,
    }
}
pub fn ref_cmp_part(p: &VersionPart, q: &VersionPart) -> Ordering {
    match (p, q) {
        (VersionPart::Epoch(a), VersionPart::Epoch(b)) => a.cmp(b),
        (VersionPart::Integer(a), VersionPart::Integer(b)) => a.cmp(b),
        (VersionPart::LexicographicString(a), VersionPart::LexicographicString(b)) => cmp_bytes(a.as_bytes(), b.as_bytes()),
        (VersionPart::PEP440String(a), VersionPart::PEP440String(b)) => cmp_text(a.to_string().as_bytes(), b.to_string().as_bytes()),
        _ => kind(p).cmp(&kind(q)),
    }
}
/// Reference order of two parsed versions.
#[allow(dead_code)]
pub fn ref_cmp(a: &Version, b: &Version) -> Ordering {
    let (x, y) = (a.parts(), b.parts());
    let mut i = 0;
    loop {
        let o = match (x.get(i), y.get(i)) {
            (None, None) => return Ordering::Equal,
            (Some(p), Some(q)) => ref_cmp_part(p, q),
            (Some(p), None) => ref_cmp_part(p, &absent(p)),
            (None, Some(q)) => ref_cmp_part(&absent(q), q),
        };
        if o != Ordering::Equal {
            return o;
        }
        i += 1;
    }
}

/// Known finding F1: an explicit zero component compared with a post/local component at the same
/// position, where an absent component orders the other way round.
pub fn zero_hazard(a: &Version, b: &Version) -> bool {
    let (x, y) = (a.parts(), b.parts());
    let mut i = 0;
    while i < x.len() && i < y.len() {
        let h = |p: &VersionPart, q: &VersionPart| -> bool {
            match (p, q) {
                (VersionPart::Integer(0), VersionPart::LexicographicString(_)) => true,
                (VersionPart::Integer(0), VersionPart::PEP440String(s)) => text_class(s.to_string().as_bytes()) == 3,
                _ => false,
            }
        };
        if h(&x[i], &y[i]) || h(&y[i], &x[i]) {
            return true;
        }
        if !part_equiv(&x[i], &y[i]) {
            return false;
        }
        i += 1;
    }
    false
}

/// Whole-text glob match: '*' stands for any text, everything else for itself.
pub fn glob(p: &[u8], t: &[u8]) -> bool {
    let (mut i, mut k) = (0, 0);
    // the last '*' seen, and where its run of text ends
    let mut star: Option<(usize, usize)> = None;
    loop {
        if i == p.len() && k == t.len() {
            return true;
        }
        if i < p.len() && p[i] == b'*' {
            star = Some((i, k));
            i += 1;
        } else if i < p.len() && k < t.len() && p[i] == t[k] {
            i += 1;
            k += 1;
        } else {
            match star {
                Some((a, b)) if b < t.len() => {
                    star = Some((a, b + 1));
                    i = a + 1;
                    k = b + 1;
                }
                _ => return false,
            }
        }
    }
}

pub fn ord_code(o: Ordering) -> u64 {
    match o {
        Ordering::Less => 0,
        Ordering::Equal => 1,
        Ordering::Greater => 2,
    }
}
#[allow(dead_code)]
pub fn note(b: bool) {
    trace(b as u64)
}
