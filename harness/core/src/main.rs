#![allow(dead_code)]
#[path = "../../rt.rs"]
mod rt;
#[path = "/repo/crates/jarl-core/src/description.rs"]
pub mod description;
#[path = "/repo/crates/jarl-core/src/directive.rs"]
pub mod directive;
#[path = "/repo/crates/jarl-core/src/error.rs"]
pub mod error;
#[path = "/repo/crates/jarl-core/src/fs.rs"]
pub mod fs;
#[path = "/repo/crates/jarl-core/src/location.rs"]
pub mod location;
#[path = "/repo/crates/jarl-core/src/rule_set.rs"]
pub mod rule_set;
mod p_directive;
mod p_description;
mod p_rules;
mod doc_rules;
mod p_fs;
use rt::*;

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn se_run(i: u32) {
    match i / 100 {
        1 => p_directive::run(i % 100),
        2 => p_description::run(i % 100),
        3 => p_rules::run(i % 100),
        _ => p_fs::run(i % 100),
    }
}
fn main() {
    native_main(se_run)
}
