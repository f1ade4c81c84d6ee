//! Known findings: each entry fails while the finding persists.  Run natively only.
use crate::gen::parse_ok;
use crate::rt::*;
use crate::spec::spec_ok;
use ronda::verif_hooks::Spec;

/// F1: "1" == "1.0" and "1" < "1.post1", yet "1.post1" < "1.0"
#[no_mangle]
pub extern "C" fn h_kf_f1() {
    let (a, b, c) = (parse_ok("1"), parse_ok("1.post1"), parse_ok("1.0"));
    check(!(a == c && a < b && b < c), 1);
}
/// F2: a run of digits beyond i32::MAX sorts below every number
#[no_mangle]
pub extern "C" fn h_kf_f2() {
    check(!(parse_ok("99999999999") < parse_ok("1")), 1);
}
/// F3: evaluating "~=" panics
#[no_mangle]
pub extern "C" fn h_kf_f3() {
    trace(spec_ok("~=1.0").test_match("1.0") as u64);
}
