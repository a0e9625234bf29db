//! Where diagnostics say they are.
use crate::rt::*;
use crate::*;

/// Pieces a document is built from; `~` is a symbolic byte.
pub const PIECES: [&str; 14] = [
    "",
    "any(is.na(~))",
    "# note",
    "# jarl-ignore",
    "  y = any(is.na(x))",
    "f <- function(x) {\n  any(is.na(x))\n\n  return(1)\n  x\n}",
    "\"é\u{1F600}\"; any(is.na(x))",
    "x # jarl-ignore any_is_na: r",
    "# jarl-ignore any_is_na: r",
    "if (T) {\n  TRUE\n} else {\n  browser()\n}",
    "#~\u{e9}",
    "foo(\n  any(is.na(x)), # c\n\n  a = 1,\n  a = 2\n)",
    "# jarl-ignore-start any_is_na: r",
    "x |>\n\n  # c\n  any(is.na(y))",
];
/// Replaces every `~` by a symbolic byte of the alphabet.
pub fn fill(s: &str, alpha: &[u8]) -> String {
    let mut v = Vec::with_capacity(s.len());
    for b in s.bytes() {
        v.push(if b == b'~' { set(alpha) } else { b });
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn doc(pieces: &[&str], n: usize, alpha: &[u8]) -> String {
    let nl = if flag() { "\r\n" } else { "\n" };
    let mut s = String::new();
    for i in 0..n {
        let p = fill(pieces[choose(pieces.len())], alpha);
        s.push_str(&p.replace('\n', nl));
        if i + 1 < n || flag() {
            s.push_str(nl);
        }
    }
    s
}
/// Every diagnostic is where it says. The column counts the characters before it
/// on its line; two findings are told apart, and judged last: bytes counted
/// instead, and one too many on the second line behind an empty first line.
pub fn well_placed(text: &str, file: &str, d: &[Diagnostic]) {
    let (mut bytes_counted, mut shifted) = (false, false);
    for d in d {
        let (a, b) = (u32::from(d.range.start()) as usize, u32::from(d.range.end()) as usize);
        check(a < b && b <= text.len() && text.is_char_boundary(a) && text.is_char_boundary(b), "a_diagnostic_covers_text_of_the_document");
        let row = text.as_bytes()[..a].iter().filter(|c| **c == b'\n').count() + 1;
        let line = text[..a].rfind('\n').map_or(0, |i| i + 1);
        let col = text[line..a].chars().count();
        match d.location {
            Some(l) => {
                check(l.row() == row, "a_diagnostic_is_reported_on_its_line");
                if l.column() != col {
                    let shift = (row == 2 && text.as_bytes().first() == Some(&b'\n')) as usize;
                    check(l.column() == a - line + shift, "a_diagnostic_is_reported_at_its_column");
                    if shift == 1 {
                        shifted = true;
                    } else {
                        bytes_counted = true;
                    }
                }
            }
            None => check(false, "a_diagnostic_has_a_location"),
        }
        check(d.filename == Path::new(file), "a_diagnostic_names_its_file");
        let f = &d.fix;
        if !f.to_skip {
            check(f.start <= f.end && f.end <= text.len() && text.is_char_boundary(f.start) && text.is_char_boundary(f.end), "a_fix_replaces_text_of_the_document");
            check(f.start >= a && f.end <= b || f.start <= a && f.end >= b, "a_fix_replaces_what_is_reported");
            reach("fix");
        }
        reach("diagnostic");
    }
    check(!shifted, "column_is_one_too_large_behind_an_empty_first_line");
    check(!bytes_counted, "column_counts_bytes");
}
fn r_file() {
    let c = config("ALL");
    let t = doc(&PIECES, param(0), b"xa.1 (\n#\"");
    if let Some(d) = lint(&t, "a.R", &c) {
        well_placed(&t, "a.R", &d);
        if d.is_empty() {
            reach("clean");
        }
    } else {
        reach("syntax_error");
    }
}
const RMD_PIECES: [&str; 9] = [
    "",
    "text \u{e9} any(is.na(x))",
    "```{r}\nany(is.na(~))\n```",
    "```{r}\n\"\u{e9}\u{1F600}\"; any(is.na(x))\n\n  y = 1 # jarl-ignore\n```",
    "````{r, echo=FALSE}\n#| jarl-ignore-chunk: any_is_na\nany(is.na(x))\n````",
    "```{python}\nany(is.na(x))\n```",
    "  ```{R}\n  foo(\n  any(is.na(~)),\n  a = 1, a = 2)\n  ```",
    "```{r}\nx <-\n```",
    "```{r}\n# jarl-ignore-file any_is_na: r\nany(is.na(x))\n# jarl-ignore-end any_is_na\n```",
];
fn rmd_file() {
    let c = config("ALL");
    let t = doc(&RMD_PIECES, param(0), b"xa.1 (\n#`");
    if let Some(d) = lint(&t, "a.qmd", &c) {
        well_placed(&t, "a.qmd", &d);
        check(d.iter().all(|d| d.fix.to_skip), "no_fix_is_offered_in_rmd");
        if d.is_empty() {
            reach("clean");
        }
    } else {
        check(false, "a_chunk_with_a_syntax_error_is_skipped");
    }
}
pub fn run(i: u32) {
    match i {
        0 => r_file(),
        1 => rmd_file(),
        _ => {}
    }
}
