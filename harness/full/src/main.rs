#![allow(dead_code, static_mut_refs)]
#[path = "../../rt.rs"]
mod rt;
#[path = "../../mockfs.rs"]
mod mockfs;
mod p_cfg;
mod p_end;
mod p_fix;
mod p_flow;
mod p_loc;
mod p_sup;
mod p_keep;
mod p_lit;
mod p_place;
mod p_rule;
use jarl_core::check::get_checks;
use jarl_core::config::{ArgsConfig, Config, build_config};
use jarl_core::diagnostic::Diagnostic;
use jarl_core::package::PackageAnalysis;
use rt::*;
use std::path::Path;

pub fn args(select: &str) -> ArgsConfig {
    ArgsConfig {
        files: vec![],
        fix: false,
        unsafe_fixes: false,
        fix_only: false,
        select: select.to_string(),
        extend_select: String::new(),
        ignore: String::new(),
        min_r_version: None,
        allow_dirty: false,
        allow_no_vcs: true,
        assignment: None,
    }
}
pub fn config(select: &str) -> Config {
    build_config(&args(select), None, vec![]).unwrap()
}
pub fn lint(text: &str, file: &str, c: &Config) -> Option<Vec<Diagnostic>> {
    get_checks(text, Path::new(file), c, &PackageAnalysis::default()).ok()
}


#[unsafe(no_mangle)]
pub extern "C" fn se_run(run: u32) {
    match run {
        0..=9 => p_loc::run(run),
        10..=19 => p_fix::run(run),
        20..=29 => p_cfg::run(run),
        30..=39 => p_sup::run(run),
        40..=44 => p_rule::run(run),
        45..=49 => p_keep::run(run),
        50..=59 => p_lit::run(run),
        60..=64 => p_flow::run(run),
        65..=69 => p_place::run(run),
        70..=74 => p_end::run(run),
        _ => {}
    }
}
fn main() {
    native_main(se_run);
}
