use crate::description::Description;
use crate::rt::*;

fn ws(b: u8) -> bool {
    matches!(b, b' ' | 9..=13)
}
fn trim(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && ws(s[0]) {
        s = &s[1..];
    }
    while !s.is_empty() && ws(s[s.len() - 1]) {
        s = &s[..s.len() - 1];
    }
    s
}
/// The value of the Depends field, its lines joined by one space.
fn depends(doc: &[u8]) -> Option<Vec<u8>> {
    let mut found: Option<Vec<u8>> = None;
    let mut inside = false;
    for line in doc.split(|b| *b == b'\n') {
        if !line.is_empty() && ws(line[0]) {
            if inside {
                let v = found.as_mut().unwrap();
                v.push(b' ');
                v.extend_from_slice(trim(line));
            }
            continue;
        }
        let Some(c) = line.iter().position(|b| *b == b':') else { continue };
        inside = trim(&line[..c]) == b"Depends";
        if inside {
            // A field given twice is not a valid DESCRIPTION file.
            assume(found.is_none());
            found = Some(trim(&line[c + 1..]).to_vec());
        }
    }
    found
}
/// The versions required by `R (>= x)` entries.
fn versions(dep: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for e in dep.split(|b| *b == b',') {
        let e = trim(e);
        if e.is_empty() || e[0] != b'R' {
            continue;
        }
        let e = trim(&e[1..]);
        if e.is_empty() || e[0] != b'(' {
            continue;
        }
        let Some(z) = e.iter().position(|b| *b == b')') else { continue };
        let v = trim(&e[1..z]);
        let v = if v.len() >= 2 && &v[..2] == b">=" { trim(&v[2..]) } else { v };
        // Only `>=` is documented.
        assume(!v.iter().any(|b| matches!(b, b'>' | b'=' | b'<')));
        if !v.is_empty() {
            out.push(v.to_vec());
        }
    }
    out
}
fn judge(doc: &str) {
    note(|| format!("DESCRIPTION {doc:?}"));
    let want = match depends(doc.as_bytes()) {
        Some(d) => versions(&d),
        None => vec![],
    };
    let got = Description::get_depend_r_version(doc);
    check(got.is_ok(), "never_an_error");
    let got = got.unwrap();
    check(got.len() >= want.len(), "a_required_version_is_missed");
    check(got.len() <= want.len(), "a_version_that_is_not_required");
    for (g, w) in got.iter().zip(&want) {
        check(g.as_bytes() == &w[..], "the_version_as_written");
    }
    reach(if want.is_empty() { "none" } else { "some" });
    if want.len() > 1 {
        reach("two");
    }
}
/// Lines of a DCF file.
fn doc(n: usize, eol: &str) -> String {
    let mut s = String::new();
    for _ in 0..n {
        match choose(9) {
            0 => {
                s.push_str("Depends:");
                s.push_str(&text(b" \tR", 1));
            }
            1 => {
                s.push_str("Depends: R (>= ");
                s.push_str(&text(b"3.4", 2));
                s.push(')');
            }
            2 => {
                s.push_str(" \t");
                s.push_str(&text(b"Rc ,(", 1));
                s.push_str(" (>= 4.1)");
                s.push_str(&text(b" ,)", 1));
            }
            3 => s.push_str("Imports: R (>= 9.9),"),
            4 => s.push_str("    cli (>= 3.0.0), R(>=4.0.0)"),
            5 => {
                s.push_str(&text(b"D\t xP", 1));
                s.push_str("epends: R (>= 1.2.3)");
            }
            6 => s.push_str("Package: é"),
            7 => s.push_str(&text(b" \tR:,", 2)),
            _ => {}
        }
        s.push_str(eol);
    }
    s
}
fn value(n: usize) -> String {
    let mut s = String::from("Package: p\nDepends:");
    s.push_str(["", " cli (>= 1.0), ", "\n    "][choose(3)]);
    s.push_str(&text(b" R(c", n - 1));
    s.push_str(&text(b"(>= ),4.\n", n));
    s.push_str(["4.1)", ">= 4)", " 4.10.2 ),x", "", "), R (>= 5)"][choose(5)]);
    s
}
pub fn run(i: u32) {
    let n = param(0);
    let s = match i {
        0 => doc(n, if flag() { "\n" } else { "\r\n" }),
        1 => value(n),
        _ => format!("Depends: {}", text(b"R (>=4),", n)),
    };
    judge(&s);
}
