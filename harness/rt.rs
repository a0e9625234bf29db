//! Harness run time.  Under the engine every `se_*` function is intercepted;
//! natively they replay one recorded input (argv: run index, input bytes in
//! hex, parameters).  Exit codes: 0 all checks held, 10 a check failed,
//! 3 an assumption failed, 4 the input was too short, 101/134 panic.
#![allow(dead_code)]
use std::cell::RefCell;
thread_local! {
    static IN: RefCell<(Vec<u8>, usize, Vec<u32>)> = const { RefCell::new((Vec::new(), 0, Vec::new())) };
}
fn next() -> u8 {
    IN.with(|i| {
        let mut i = i.borrow_mut();
        if i.1 >= i.0.len() {
            println!("REPLAY input exhausted");
            std::process::exit(4);
        }
        i.1 += 1;
        i.0[i.1 - 1]
    })
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn se_byte(lo: u8, hi: u8) -> u8 {
    let b = next();
    if b < lo || b > hi {
        println!("REPLAY byte {b} outside {lo}..={hi}");
        std::process::exit(4);
    }
    b
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn se_set(p: *const u8, n: usize) -> u8 {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    let b = next();
    if !s.contains(&b) {
        println!("REPLAY byte {b} outside the alphabet");
        std::process::exit(4);
    }
    b
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn se_assume(c: bool) {
    if !c {
        println!("REPLAY assumption failed");
        std::process::exit(3);
    }
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn se_check(c: bool, p: *const u8, n: usize) {
    if !c {
        let l = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
        println!("CHECK-FAILED {l}");
        std::process::exit(10);
    }
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn se_reach(p: *const u8, n: usize) {
    let l = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    println!("REACHED {l}");
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn se_conc(x: u64) -> u64 {
    x
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn se_is_sym() -> u32 {
    0
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn se_param(i: u32) -> u32 {
    IN.with(|x| x.borrow().2.get(i as usize).copied().unwrap_or(0))
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn se_fuel(_n: u64) {}

pub fn byte(lo: u8, hi: u8) -> u8 {
    se_byte(lo, hi)
}
/// One of the given bytes.
pub fn set(s: &[u8]) -> u8 {
    se_set(s.as_ptr(), s.len())
}
/// 0..n, one path per value.
pub fn choose(n: usize) -> usize {
    if n == 1 {
        return 0;
    }
    se_conc(se_byte(0, (n - 1) as u8) as u64) as usize
}
pub fn flag() -> bool {
    choose(2) == 1
}
/// A symbolic boolean (no fork here).
pub fn symbool() -> bool {
    se_byte(0, 1) == 1
}
pub fn assume(c: bool) {
    se_assume(c)
}
pub fn check(c: bool, label: &str) {
    se_check(c, label.as_ptr(), label.len())
}
pub fn reach(label: &str) {
    se_reach(label.as_ptr(), label.len())
}
pub fn param(i: u32) -> usize {
    se_param(i) as usize
}
pub fn is_sym() -> bool {
    se_is_sym() == 1
}
/// `n` symbolic bytes out of an ASCII alphabet.
pub fn text(alpha: &[u8], n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(set(alpha));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// `n` characters; the first entries of `multi` are multi-byte alternatives,
/// chosen concretely, the others symbolic ASCII bytes.
pub fn text_multi(alpha: &[u8], multi: &[&str], n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let k = choose(multi.len() + 1);
        if k == 0 {
            unsafe { s.as_mut_vec().push(set(alpha)) };
        } else {
            s.push_str(multi[k - 1]);
        }
    }
    s
}
/// Every ASCII byte.
pub fn ascii() -> u8 {
    byte(0, 127)
}
pub fn note(f: impl FnOnce() -> String) {
    if !is_sym() {
        println!("NOTE {}", f());
    }
}
pub fn native_main(run: extern "C" fn(u32)) {
    let _ = std::env::set_current_dir("/usr/lib");
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: {} RUN HEX [PARAM...]", a[0]);
        std::process::exit(2);
    }
    let h = a[2].trim_start_matches('x');
    let bytes = (0..h.len()).step_by(2).map(|i| u8::from_str_radix(&h[i..i + 2], 16).unwrap()).collect();
    let params = a[3..].iter().map(|x| x.parse().unwrap()).collect();
    IN.with(|i| *i.borrow_mut() = (bytes, 0, params));
    run(a[1].parse().unwrap());
    println!("REPLAY ok");
}
