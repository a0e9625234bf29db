//! What `jarl check` prints in each format, and its exit status.
use crate::rt::*;
use crate::*;

#[derive(Clone, Copy, PartialEq)]
struct D {
    row: usize,
    col: usize,
    rule: &'static str,
}
/// Lines of code, the violations in them (row and column from 0) and whether they parse.
struct Item {
    code: &'static str,
    found: &'static [(usize, usize, usize)],
    parses: bool,
}
/// Rule, its message, and whether its fix is safe, unsafe or absent.
const RULES: [(&str, &str, char); 5] = [
    ("any_is_na", "`any(is.na(...))` is inefficient. Use `anyNA(...)` instead.", 's'),
    ("any_duplicated", "`any(duplicated(...))` is inefficient. Use `anyDuplicated(...) > 0` instead.", 's'),
    ("all_equal", "If `all.equal()` is false, it will return a string and not `FALSE`. Wrap `all.equal()` in `isTRUE()`, or replace it by `identical()` if no tolerance is required.", 'u'),
    ("implicit_assignment", "Avoid implicit assignments in function calls.", 'n'),
    // The fix of a node with a comment is left out.
    ("any_is_na", "`any(is.na(...))` is inefficient. Use `anyNA(...)` instead.", 'n'),
];
const ITEMS: [Item; 10] = [
    Item { code: "x <- 1", found: &[], parses: true },
    Item { code: "any(is.na(x))", found: &[(0, 0, 0)], parses: true },
    Item { code: "  y <- any(duplicated(x)); any(is.na(x))", found: &[(0, 7, 1), (0, 27, 0)], parses: true },
    Item { code: "x <- (", found: &[], parses: false },
    Item { code: "!all.equal(x, y)", found: &[(0, 0, 2)], parses: true },
    Item { code: "foo(x <- 1)", found: &[(0, 4, 3)], parses: true },
    Item { code: "any(is.na(any(is.na(x))))", found: &[(0, 0, 0), (0, 10, 0)], parses: true },
    Item { code: "z <- any( # c\n  is.na(x)\n)", found: &[(0, 5, 4)], parses: true },
    Item { code: "any(\n  duplicated(x)\n)", found: &[(0, 0, 1)], parses: true },
    Item { code: "foo(x <- any(is.na(y)))", found: &[(0, 4, 3), (0, 9, 0)], parses: true },
];
const FORMATS: [&[&str]; 5] = [&["--output-format", "concise"], &["--output-format", "json"], &["--output-format", "github"], &[], &["--statistics"]];
/// In the order they are reported in.
const NAMES: [&str; 5] = ["a.R", "b/c.R", "b/z z.r", "b.Rmd", "ü.R"];

fn plain(s: &str) -> String {
    // Without the escape sequences of the rule's hyperlink.
    let mut o = String::new();
    let mut it = s.split('\x1b');
    o.push_str(it.next().unwrap_or(""));
    for p in it {
        match p.strip_prefix("]8;;") {
            Some(_) => {}
            None => o.push_str(p.strip_prefix('\\').unwrap_or(p)),
        }
    }
    o
}
fn output() {
    mockfs::reset();
    let n = param(0);
    let files: Vec<usize> = match param(1) {
        0 => vec![0],
        1 => vec![1, 3],
        _ => vec![4, 2, 0],
    };
    let format = choose(5);
    let config = choose(4);
    mockfs::add_file("/w/jarl.toml", ["", "[lint]\nfixable = [\"any_duplicated\", \"all_equal\"]\n", "[lint]\nunfixable = [\"any_is_na\"]\n", "[lint]\nunfixable = [\"ALL\"]\n"][config].as_bytes());
    let mut want: Vec<(usize, D, usize)> = Vec::new();
    let mut broken: Vec<&str> = Vec::new();
    for &f in &files {
        let rmd = NAMES[f].ends_with("Rmd");
        let mut text = String::new();
        let mut row = 0;
        if rmd {
            text.push_str("# T\n\n```{r}\n");
            row += 3;
        }
        let mut list = Vec::new();
        let mut parses = true;
        for _ in 0..n {
            // The files after the first one have fewer kinds of lines.
            let it = &ITEMS[choose(if f == files[0] { ITEMS.len() } else { 4 })];
            text.push_str(it.code);
            text.push('\n');
            list.extend(it.found.iter().map(|(r, c, k)| (f, D { row: row + r + 1, col: c + 1, rule: RULES[*k].0 }, if rmd { k + 10 } else { *k })));
            parses &= it.parses;
            row += it.code.matches('\n').count() + 1;
        }
        if rmd {
            text.push_str("```\n");
        }
        if parses {
            want.extend(list);
        } else if !rmd {
            broken.push(NAMES[f]);
        }
        mockfs::add_file(&format!("/w/{}", NAMES[f]), text.as_bytes());
    }
    want.sort_by_key(|w| w.0);
    let kind = |k: usize| -> char {
        let (rule, _, fix) = RULES[k % 10];
        let on = match config {
            0 => true,
            1 => rule != "any_is_na",
            2 => rule != "any_is_na",
            _ => false,
        };
        if on && k < 10 { fix } else { 'n' }
    };
    let mut args = vec![".", "--select", "any_is_na,any_duplicated,all_equal,implicit_assignment"];
    args.extend_from_slice(FORMATS[format]);
    let r = crate::run(&args);
    let (total, safe, uns) = (want.len(), want.iter().filter(|w| kind(w.2) == 's').count(), want.iter().filter(|w| kind(w.2) == 'u').count());
    note(|| format!("format {format} config {config} want {total} safe {safe} unsafe {uns} broken {broken:?}\n{}\n{}", r.out, r.err));
    let status = if !broken.is_empty() { 255 } else { (total > 0) as u8 };
    check(r.code == Some(status), "the_exit_status_says_whether_all_is_well");
    let message = |w: &(usize, D, usize)| RULES[w.2 % 10].1;
    match format {
        0 => {
            let reps = concise(&r.out);
            check(reps.len() == total, "every_violation_is_listed_once");
            check(reps.iter().zip(&want).all(|(g, w)| g.path == NAMES[w.0] && g.row == w.1.row && g.col == w.1.col && g.rule == w.1.rule && g.msg == message(w)), "place_rule_and_message_are_right");
            reach("concise");
        }
        1 => {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(&r.out) else {
                check(false, "standard_output_is_one_json_document");
                return;
            };
            let d = v["diagnostics"].as_array().unwrap();
            check(d.len() == total, "every_violation_is_listed_once");
            let right = d.iter().zip(&want).all(|(g, w)| {
                let msg = match g["message"]["suggestion"].as_str() {
                    Some(s) => format!("{} {s}", g["message"]["body"].as_str().unwrap()),
                    None => g["message"]["body"].as_str().unwrap().to_string(),
                };
                g["filename"] == NAMES[w.0] && g["message"]["name"] == w.1.rule && g["location"]["row"] == w.1.row && g["location"]["column"] == w.1.col - 1 && msg == message(w)
            });
            check(right, "place_rule_and_message_are_right");
            let e = v["errors"].as_array().unwrap();
            check(e.len() == broken.len() && broken.iter().all(|b| e.iter().any(|e| e["file"] == *b && e["error"].as_str().is_some_and(|s| s.contains(b)))), "every_file_that_cannot_be_checked_is_named");
            check(r.err.is_empty(), "structured_output_stands_alone");
            reach("json");
        }
        2 => {
            let lines: Vec<&str> = r.out.lines().collect();
            check(lines.len() == total, "every_violation_is_listed_once");
            let right = lines.iter().zip(&want).all(|(g, w)| {
                let (f, row, col, rule) = (NAMES[w.0], w.1.row, w.1.col, w.1.rule);
                *g == format!("::warning title=Jarl ({rule}),file={f},line={row},col={col}::{f}:{row}:{col} [{rule}] {}", message(w))
            });
            check(right, "place_rule_and_message_are_right");
            reach("github");
        }
        3 => {
            let text = plain(&r.out);
            let heads: Vec<(&str, &str)> = text.lines().zip(text.lines().skip(1)).filter(|(a, b)| a.starts_with("warning: ") && b.trim_start().starts_with("--> ")).map(|(a, b)| (&a["warning: ".len()..], &b.trim_start()[4..])).collect();
            check(heads.len() == total, "every_violation_is_listed_once");
            check(heads.iter().zip(&want).all(|(g, w)| g.0 == w.1.rule && g.1 == format!("{}:{}:{}", NAMES[w.0], w.1.row, w.1.col)), "place_rule_and_message_are_right");
            reach("full");
        }
        _ => {
            let text = &r.out;
            let mut rows: Vec<(usize, bool, &str)> = Vec::new();
            for l in text.lines() {
                if let Some((n, rest)) = l.split_once(" [")
                    && let Some((star, rule)) = rest.split_once("] ")
                    && !n.trim().is_empty()
                {
                    rows.push((number(n.trim()), star == "*", rule));
                }
            }
            let mut names: Vec<&str> = want.iter().map(|w| w.1.rule).collect();
            names.sort();
            names.dedup();
            check(rows.len() == names.len() && rows.windows(2).all(|w| w[0].0 >= w[1].0), "each_rule_is_counted_once_most_frequent_first");
            let right = names.iter().all(|x| {
                let n = want.iter().filter(|w| w.1.rule == *x).count();
                let star = want.iter().any(|w| w.1.rule == *x && kind(w.2) == 's');
                rows.iter().any(|r| *r == (n, star, *x))
            });
            check(right, "each_count_is_right");
            reach("statistics");
        }
    }
    if format != 1 && format != 2 {
        check(broken.iter().all(|b| r.err.lines().filter(|l| l.contains(b)).count() == 1) && r.err.lines().filter(|l| !l.is_empty()).count() == broken.len(), "every_file_that_cannot_be_checked_is_named");
        check(r.out.contains("All checks passed!") == (total == 0 && broken.is_empty()), "all_is_well_is_only_said_if_it_is");
    }
    if format == 0 || format == 3 {
        let found = match total {
            0 => String::new(),
            1 => "Found 1 error.".to_string(),
            n => format!("Found {n} errors."),
        };
        check(total == 0 && !r.out.contains("Found ") || total > 0 && r.out.lines().any(|l| l == found), "the_summary_counts_the_violations");
        let fixes = match (safe, uns) {
            (0, 0) => String::new(),
            (0, 1) => "1 fix is available with the `--fix --unsafe-fixes` option.".to_string(),
            (0, n) => format!("{n} fixes are available with the `--fix --unsafe-fixes` option."),
            (n, 0) => format!("{n} fixable with the `--fix` option."),
            (n, 1) => format!("{n} fixable with the `--fix` option (1 hidden fix can be enabled with the `--unsafe-fixes` option)."),
            (n, m) => format!("{n} fixable with the `--fix` option ({m} hidden fixes can be enabled with the `--unsafe-fixes` option)."),
        };
        check(fixes.is_empty() && !r.out.contains("--fix`") && !r.out.contains("--unsafe-fixes`") || !fixes.is_empty() && r.out.lines().any(|l| l == fixes), "the_summary_counts_the_fixes");
    }
    if !broken.is_empty() {
        reach("broken");
    }
}
/// No file to check at all.
fn nothing() {
    mockfs::reset();
    mockfs::add_file("/w/x.txt", b"x");
    let format = choose(5);
    let mut args = vec![["x", ".", "none"][choose(3)]];
    if args[0] == "x" {
        mockfs::add_dir("/w/x");
    }
    args.extend_from_slice(FORMATS[format]);
    let r = crate::run(&args);
    check(r.code == Some(0), "the_exit_status_says_whether_all_is_well");
    match format {
        1 => check(serde_json::from_str::<serde_json::Value>(&r.out).is_ok_and(|v| v["diagnostics"].as_array().is_some_and(|d| d.is_empty())), "standard_output_is_one_json_document"),
        2 => check(r.out.is_empty(), "every_violation_is_listed_once"),
        _ => {}
    }
    reach("nothing");
}
pub fn run(i: u32) {
    match i {
        10 => output(),
        11 => nothing(),
        _ => {}
    }
}
