#[macro_use]
extern crate cpython;
#[path = "../../harness/src/gen.rs"]
pub mod gen;
#[path = "../../harness/src/oracle.rs"]
pub mod oracle;
pub mod py;
#[path = "/repo/python/src/python_interface.rs"]
#[allow(unused_imports, dead_code)]
pub mod python_interface;
#[macro_use]
#[path = "../../harness/src/rt.rs"]
pub mod rt;

include!("entries.rs");
include!("../../harness/src/run.rs");
