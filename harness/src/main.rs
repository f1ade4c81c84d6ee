pub mod dict;
pub mod gen;
pub mod hist;
pub mod kf;
pub mod long;
pub mod op;
pub mod oracle;
pub mod parts;
#[macro_use]
pub mod rt;
pub mod repo;
pub mod spec;
pub mod tree;
pub mod ver;

include!("entries.rs");

include!("run.rs");
