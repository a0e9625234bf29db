#![allow(dead_code, static_mut_refs)]
#[path = "../../rt.rs"]
mod rt;
#[path = "../../mockfs.rs"]
mod mockfs;
mod p_add;
mod p_find;
mod p_out;
mod p_vcs;
mod p_opt;
mod p_pkg;
use clap::Parser;
use rt::*;

/// The exit code, or nothing if jarl itself failed; then the error is in `err`.
pub struct Run {
    pub code: Option<u8>,
    pub out: String,
    pub err: String,
}
fn utf8(v: &[u8]) -> String {
    String::from_utf8_lossy(v).into_owned()
}
/// `jarl check ARGS`; only once per path, as logging is set up once.
pub fn run(args: &[&str]) -> Run {
    unsafe {
        mockfs::OUT.clear();
        mockfs::ERR.clear();
    }
    let mut v = vec!["jarl", "check"];
    v.extend_from_slice(args);
    let r = match jarl::args::Args::try_parse_from(v) {
        Ok(a) => jarl::run(a),
        Err(e) => Err(e.into()),
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let (out, mut err) = unsafe { (utf8(&mockfs::OUT), utf8(&mockfs::ERR)) };
    let code = match r {
        Ok(s) => {
            use jarl::status::ExitStatus::*;
            Some(match s {
                Success => 0,
                Failure => 1,
                Error => 255,
            })
        }
        Err(e) => {
            err.push_str(&format!("{e:#}"));
            None
        }
    };
    Run { code, out, err }
}
/// What a concise report says: path, row, column, rule, message.
pub struct Rep<'a> {
    pub path: &'a str,
    pub row: usize,
    pub col: usize,
    pub rule: &'a str,
    pub msg: &'a str,
}
fn number(s: &str) -> usize {
    s.bytes().fold(0, |n, b| n * 10 + (b - b'0') as usize)
}
/// The concise reports on standard output; the rule is a hyperlink.
pub fn concise(out: &str) -> Vec<Rep<'_>> {
    let mut v = Vec::new();
    for l in out.split('\n') {
        let Some(link) = l.find(" \x1b]8;;") else { continue };
        let pos = l[..link].rfind(" [").unwrap();
        let (r, c) = l[pos + 2..link - 1].split_once(':').unwrap();
        let rest = &l[link + 1..];
        let a = rest.find("\x1b\\").unwrap() + 2;
        let b = a + rest[a..].find('\x1b').unwrap();
        let msg = &rest[b + "\x1b]8;;\x1b\\ ".len()..];
        v.push(Rep { path: &l[..pos], row: number(r), col: number(c), rule: &rest[a..b], msg });
    }
    v
}

#[unsafe(no_mangle)]
pub extern "C" fn se_run(run: u32) {
    match run {
        0..=9 => p_find::run(run),
        10..=19 => p_out::run(run),
        20..=29 => p_add::run(run),
        30..=39 => p_vcs::run(run),
        40..=49 => p_pkg::run(run),
        50..=59 => p_opt::run(run),
        _ => {}
    }
}
fn main() {
    native_main(se_run);
}
