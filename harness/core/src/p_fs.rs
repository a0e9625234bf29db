use crate::fs::*;
use crate::rt::*;
use std::path::Path;

pub const CWD: &str = "/usr/lib";
/// The extension of the last component.
fn ext(p: &[u8]) -> Option<&[u8]> {
    let mut e = p.len();
    loop {
        if e > 0 && p[e - 1] == b'/' {
            e -= 1;
        } else if e > 1 && p[e - 1] == b'.' && p[e - 2] == b'/' {
            e -= 1;
        } else {
            break;
        }
    }
    let p = &p[..e];
    let a = p.iter().rposition(|b| *b == b'/').map_or(0, |i| i + 1);
    let name = &p[a..];
    if name == b".." || name.is_empty() {
        return None;
    }
    let d = name.iter().rposition(|b| *b == b'.')?;
    if d == 0 { None } else { Some(&name[d + 1..]) }
}
fn r(e: &[u8]) -> bool {
    e == b"r" || e == b"R"
}
fn rmd(e: &[u8]) -> bool {
    e.len() == 3 && &e[1..] == b"md" && matches!(e[0], b'r' | b'R' | b'q' | b'Q')
}
/// Components of an absolute path after resolving `.` and `..` by name.
fn resolve(cwd: &[u8], p: &[u8]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let mut go = |s: &[u8]| {
        for c in s.split(|b| *b == b'/') {
            if c.is_empty() || c == b"." {
            } else if c == b".." {
                out.pop();
            } else {
                out.push(c.to_vec());
            }
        }
    };
    if p.is_empty() || p[0] != b'/' {
        go(cwd);
    }
    go(p);
    out
}
fn join(v: &[Vec<u8>]) -> Vec<u8> {
    let mut s = vec![];
    for c in v {
        s.push(b'/');
        s.extend_from_slice(c);
    }
    if s.is_empty() {
        s.push(b'/');
    }
    s
}
pub fn run(i: u32) {
    let n = param(0);
    match i {
        0 => {
            let l = choose(n + 1);
            let mut v = vec![];
            for _ in 0..l {
                v.push(ascii());
            }
            let s = unsafe { String::from_utf8_unchecked(v) };
            note(|| format!("extension {s:?}"));
            check(is_r_extension(&s) == r(s.as_bytes()), "r_extension");
            check(is_rmd_extension(&s) == rmd(s.as_bytes()), "rmd_extension");
            if r(s.as_bytes()) {
                reach("r");
            }
            if rmd(s.as_bytes()) {
                reach("rmd");
            }
        }
        1 => {
            let s = text(b"rRmdqQ./", n);
            note(|| format!("path {s:?}"));
            let e = ext(s.as_bytes());
            let (a, b) = (e.is_some_and(r), e.is_some_and(rmd));
            check(has_r_extension(Path::new(&s)) == a, "r_file");
            check(has_rmd_extension(Path::new(&s)) == b, "rmd_file");
            if a {
                reach("r");
            }
            if b {
                reach("rmd");
            }
        }
        2 => {
            let mut s = text(b"/.ab", n);
            if flag() {
                s.push_str("/R/x.R");
            }
            note(|| format!("path {s:?}"));
            assume(!s.is_empty());
            let w = join(&resolve(CWD.as_bytes(), s.as_bytes()));
            let g = normalize_path(&s);
            check(g.is_absolute(), "normalized_is_absolute");
            check(g.as_os_str().as_encoded_bytes() == &w[..], "normalized_resolves_dots");
            check(normalize_path(&g) == g, "normalizing_is_idempotent");
            reach("norm");
        }
        _ => {
            let mut s = String::from(["", "/usr/lib", "/usr/li", "/usr/lib/", "/"][choose(5)]);
            s.push_str(&text(b"/lab", n));
            note(|| format!("path {s:?}"));
            let g = relativize_path(&s);
            let inside = s.as_bytes() == b"/usr/lib" || s.as_bytes().starts_with(b"/usr/lib/");
            if inside {
                check(!g.starts_with('/'), "under_the_working_directory_is_relative");
                check(resolve(CWD.as_bytes(), g.as_bytes()) == resolve(b"", s.as_bytes()), "names_the_same_file");
                reach("inside");
            } else {
                // Doubled slashes in the prefix name the same directory; not judged.
                assume(!s.as_bytes().windows(2).any(|w| w == b"//"));
                check(g.as_bytes() == s.as_bytes(), "outside_is_unchanged");
                reach("outside");
            }
        }
    }
}
