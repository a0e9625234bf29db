#![allow(dead_code)]
#[path = "../../rt.rs"]
mod rt;
#[path = "/repo/crates/jarl-lsp/src/client.rs"]
pub mod client;
#[path = "/repo/crates/jarl-lsp/src/document.rs"]
pub mod document;
mod p_client;
mod p_document;
use rt::*;

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn se_run(i: u32) {
    match i / 100 {
        1 => p_document::run(i % 100),
        _ => p_client::run(i % 100),
    }
}
fn main() {
    native_main(se_run)
}
