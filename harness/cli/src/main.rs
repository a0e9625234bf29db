#![allow(dead_code, static_mut_refs)]
#[path = "../../rt.rs"]
mod rt;
#[path = "../../mockfs.rs"]
mod mockfs;
#[path = "/repo/crates/jarl-core/src/error.rs"]
mod error;
#[path = "/repo/crates/jarl-core/src/location.rs"]
mod location;
#[path = "/repo/crates/jarl/src/logging.rs"]
mod logging;
#[path = "/repo/crates/jarl/src/status.rs"]
mod status;
use logging::LogLevel;
use rt::*;
use status::ExitStatus;
use std::process::ExitCode;
use std::str::FromStr;

const LEVELS: [(&str, &str, LogLevel); 5] = [
    ("error", "Error", LogLevel::Error),
    ("warn", "Warn", LogLevel::Warn),
    ("info", "Info", LogLevel::Info),
    ("debug", "Debug", LogLevel::Debug),
    ("trace", "Trace", LogLevel::Trace),
];
/// Every level name with one byte edited.
fn names() {
    let mut s = LEVELS[choose(5)].0.as_bytes().to_vec();
    let at = choose(s.len() + 1);
    match choose(4) {
        0 => {}
        1 => s.insert(at, byte(1, 127)),
        2 if at < s.len() => s[at] = byte(1, 127),
        3 if at < s.len() => {
            s.remove(at);
        }
        _ => return,
    }
    let s = String::from_utf8(s).unwrap();
    let want = LEVELS.iter().find(|l| l.0 == s);
    match (LogLevel::from_str(&s), want) {
        (Ok(l), Some(w)) => {
            check(l == w.2, "a_level_name_means_its_level");
            check(l.to_string() == w.1, "a_level_is_displayed_by_its_name");
            reach("level");
        }
        (Err(e), None) => {
            check(e.to_string().contains(&s), "the_error_names_the_rejected_level");
            reach("not_a_level");
        }
        _ => check(false, "exactly_the_five_names_are_levels"),
    }
}
fn status() {
    let (s, n) = [(ExitStatus::Success, 0), (ExitStatus::Failure, 1), (ExitStatus::Error, 255)][choose(3)];
    let c: ExitCode = s.into();
    check(c == ExitCode::from(n), "exit_codes_are_0_1_and_255");
    check(LogLevel::default() == LogLevel::Warn, "warnings_are_shown_by_default");
    reach("status");
}
/// What reaches standard error at each level.
fn log() {
    mockfs::reset();
    let l = LEVELS[choose(5)].2;
    logging::init_logging(l);
    unsafe { mockfs::ERR.clear() };
    let own = flag();
    let at = choose(5);
    match (own, at) {
        (true, 0) => tracing::event!(target: "jarl", tracing::Level::ERROR, "hello"),
        (true, 1) => tracing::event!(target: "jarl", tracing::Level::WARN, "hello"),
        (true, 2) => tracing::event!(target: "jarl", tracing::Level::INFO, "hello"),
        (true, 3) => tracing::event!(target: "jarl_core::check", tracing::Level::DEBUG, "hello"),
        (true, _) => tracing::event!(target: "jarl::commands", tracing::Level::TRACE, "hello"),
        (false, 0) => tracing::event!(target: "other", tracing::Level::ERROR, "hello"),
        (false, 1) => tracing::event!(target: "ignore::walk", tracing::Level::WARN, "hello"),
        (false, 2) => tracing::event!(target: "other", tracing::Level::INFO, "hello"),
        (false, 3) => tracing::event!(target: "other", tracing::Level::DEBUG, "hello"),
        (false, _) => tracing::event!(target: "other", tracing::Level::TRACE, "hello"),
    }
    let shown = unsafe { !mockfs::ERR.is_empty() };
    check(shown == (own && at <= l as usize), "jarls_messages_up_to_the_level_reach_standard_error");
    reach(if shown { "shown" } else { "hidden" });
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn se_run(i: u32) {
    match i {
        0 => names(),
        1 => status(),
        _ => log(),
    }
}
fn main() {
    native_main(se_run)
}
