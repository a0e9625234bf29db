#[path = "../../rt.rs"]
mod rt;
#[allow(dead_code)]
#[path = "/repo/crates/jarl-core/src/rmd/extraction.rs"]
mod extraction;
use rt::*;

/// Lines of `s` with their ends (including the line terminator).
fn lines(s: &[u8]) -> Vec<(usize, usize)> {
    let (mut v, mut a) = (vec![], 0);
    for i in 0..s.len() {
        if s[i] == b'\n' {
            v.push((a, i + 1));
            a = i + 1;
        }
    }
    if a < s.len() {
        v.push((a, s.len()));
    }
    v
}
fn ws(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\r')
}
/// Number of backticks if the line opens an executable R chunk.
fn opens(l: &[u8]) -> usize {
    let mut i = 0;
    while i < l.len() && (l[i] == b' ' || l[i] == b'\t') {
        i += 1;
    }
    let a = i;
    while i < l.len() && l[i] == b'`' {
        i += 1;
    }
    let n = i - a;
    if n < 3 || i + 2 >= l.len() || l[i] != b'{' || (l[i + 1] != b'r' && l[i + 1] != b'R') {
        return 0;
    }
    let c = l[i + 2];
    let mut closed = false;
    for &b in &l[i + 2..] {
        if b == b'}' {
            closed = true;
        }
    }
    if !closed {
        return 0;
    }
    // `{r}`, `{r label}`, `{r, opts}`; `{ruby}`, `{rust}`, `{Rcpp}` are other engines.
    if c == b'}' || c == b',' || c == b' ' || c == b'\t' {
        return n;
    }
    // Anything but a letter, a digit, `_` here is not a documented header: not judged.
    assume(c.is_ascii_alphanumeric() || c == b'_');
    0
}
fn closes(l: &[u8], n: usize) -> bool {
    let (mut a, mut b) = (0, l.len());
    while a < b && ws(l[a]) {
        a += 1;
    }
    while b > a && ws(l[b - 1]) {
        b -= 1;
    }
    let mut ok = b - a == n;
    for &c in &l[a..b] {
        ok &= c == b'`';
    }
    ok
}
/// (start, end) of the code of each chunk.
fn reference(s: &[u8]) -> Vec<(usize, usize)> {
    let (mut v, mut cur) = (vec![], None);
    for (a, b) in lines(s) {
        match cur {
            None => {
                let n = opens(&s[a..b]);
                if n > 0 {
                    cur = Some((n, b));
                }
            }
            Some((n, st)) => {
                if closes(&s[a..b], n) {
                    v.push((st, a));
                    cur = None;
                }
            }
        }
    }
    v
}

fn spans(s: &str) {
    let ch = extraction::extract_r_chunks(s);
    let b = s.as_bytes();
    let mut end = 0;
    for c in &ch {
        let (a, z) = (c.start_byte, c.start_byte + c.code.len());
        check(a >= end && z <= b.len(), "chunks_in_bounds_and_ordered");
        check(b[a..z] == *c.code.as_bytes(), "chunk_text_is_the_file_text_at_start_byte");
        check(a > 0 && b[a - 1] == b'\n', "chunk_starts_a_line");
        check(z == a || b[z - 1] == b'\n', "chunk_ends_a_line");
        end = z;
    }
    if !ch.is_empty() {
        reach("chunk");
    }
    if ch.len() > 1 {
        reach("two_chunks");
    }
}
fn exact(s: &str) {
    let r = reference(s.as_bytes());
    let ch = extraction::extract_r_chunks(s);
    check(ch.len() >= r.len(), "an_r_chunk_is_missed");
    check(ch.len() <= r.len(), "something_else_is_taken_for_an_r_chunk");
    for (c, (a, z)) in ch.iter().zip(&r) {
        check(*c.code.as_bytes() == s.as_bytes()[*a..*z], "chunk_code_is_what_is_between_its_fences");
    }
    if !r.is_empty() {
        reach("chunk");
    }
    if r.len() > 1 {
        reach("two_chunks");
    }
    if s.as_bytes().contains(&b'{') && r.is_empty() {
        reach("no_chunk");
    }
}
/// Documents of `n` lines built from fence-like templates with symbolic holes.
fn doc(n: usize) -> String {
    let eol = if flag() { "\r\n" } else { "\n" };
    let last = flag();
    let mut s = String::new();
    for i in 0..n {
        match choose(if n > 3 { 7 } else { 9 }) {
            0 => s.push_str("```{r}"),
            1 => {
                s.push_str(&text(b" \t", 1));
                s.push_str("````{R");
                s.push_str(&text(b" ,}", 1));
                s.push_str("x}");
            }
            2 => s.push_str("```"),
            3 => {
                s.push_str("````");
                s.push_str(&text(b" \t`", 1));
            }
            4 => s.push_str(&text(b"x` {~\t", 2)),
            5 => {
                s.push_str(&text(b" \t`x", 1));
                s.push_str("```");
            }
            6 => s.push_str("é"),
            7 => {
                s.push_str("```{r");
                s.push_str(&text(b"} ,u_c", 1));
                s.push_str(&text(b"}x", 1));
            }
            _ => {}
        }
        if i + 1 < n || last {
            s.push_str(eol);
        }
    }
    s
}
/// prefix + symbolic middle inside an otherwise complete chunk.
fn hole(n: usize) -> String {
    let mut s = String::new();
    let k = choose(3);
    s.push_str(["```{r}\n", "a\n  ```{r, x}\r\n", "```{r}\ny\n```\n\n```{r}\n"][k]);
    s.push_str(&text_multi(b"`\n x{r}", &["é", "日"], n));
    s.push_str(["\n```\n", "```", "\n  ``` \nz"][choose(3)]);
    s
}
fn header(n: usize) -> String {
    let mut s = text(b"` \t~x", n);
    s.push_str("``{");
    s.push_str(&text(b"rR pqu},_1", n));
    s.push_str("}\nx\n");
    s.push_str(&text(b"` \t", n - 1));
    s.push_str("``\n");
    s
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn se_run(i: u32) {
    let _ = extraction::extract_r_chunks("x");
    let n = param(0);
    let s = match i & 3 {
        0 => text(b"`{}rRx \n", n),
        1 => doc(n),
        2 => hole(n),
        _ => header(n),
    };
    note(|| format!("document {s:?}"));
    if i < 4 { spans(&s) } else { exact(&s) }
}
fn main() {
    native_main(se_run)
}
