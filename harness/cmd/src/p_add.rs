//! `jarl check --add-jarl-ignore`: violations are silenced, nothing else changes.
use crate::rt::*;
use crate::*;
use jarl_core::config::{ArgsConfig, build_config};

const RULES: &str = "any_is_na,any_duplicated,equals_na,implicit_assignment";
const WRONG: &str = "blanket_suppression,invalid_chunk_suppression,misnamed_suppression,misplaced_file_suppression,misplaced_suppression,outdated_suppression,unexplained_suppression,unmatched_range_suppression";
const E: [&str; 11] = [
    "any(is.na(x))",
    "any(is.na(any(duplicated(x))))",
    "c(any(is.na(x)), any(duplicated(y)), 2)",
    "any(\n  is.na(x)\n)",
    "g(y <- any(is.na(x)))",
    "\"é\" %in% any(duplicated(x))",
    "-any(is.na(x))",
    "x$b(any(is.na(x)))[any(is.na(y))]",
    "any(is.na(x)) || x == NA",
    "h(\n  x == NA,\n  any(is.na(x)), any(duplicated(x))\n)",
    "w",
];
const S: [&str; 36] = [
    "@",
    "y <- @",
    "f(1, @)",
    "if (@) 1 else 2",
    "if (a) @ else @",
    "if (a) {\n  1\n} else if (@) {\n  @\n}",
    "k <- function(a = @, b) @",
    "k <- function(a) {\n  @\n}",
    "z |>\n  f(@) |>\n  g()",
    "1; @; 2",
    "# jarl-ignore equals_na: r\n@",
    "# jarl-ignore any_is_na: r\n@",
    // Thorough from here on.
    "  @",
    "\t@ # note",
    "f(\n  a = @,\n  2\n)",
    "f(a = 1, b = @)",
    "for (i in @) {\n  i\n}",
    "while (@) @",
    "repeat @",
    "k <- \\(a) @",
    "z |> f(@)",
    "x[@]",
    "x[[1, @]]",
    "a +\n  @",
    "(\n  @\n)",
    "{ @ }",
    "{\n\n  @\n\n}",
    "# note\n@",
    "f(function(a) @, @)",
    "if (a) {\n  @\n} else {\n  @\n}",
    "x <- \"a\n  b\"; @",
    "f(\"a\n  b\", @)",
    "lapply(x, function(i) {\n  if (i) @\n})",
    "f(# note\n  @)",
    "f(\n  # note\n  @\n)",
    "~ @",
];
/// The text with the inserted comments taken out; where one starts is found
/// by comparing with what it was. Also how many there were.
fn without(new: &str, old: &str) -> Option<(String, usize)> {
    let mut out = String::new();
    let mut rest = new;
    let mut n = 0;
    // One block of comments with the same indentation, at a line's start.
    fn block(s: &str) -> Option<(usize, usize, usize)> {
        let indent = s.bytes().take_while(|b| *b == b' ' || *b == b'\t').count();
        let (mut len, mut n) = (0, 0);
        while s.len() > len + indent && s[len..len + indent] == s[..indent] && s[len + indent..].starts_with("# jarl-ignore ") {
            let line = s[len..].find('\n')?;
            if !s[len..len + line].ends_with(": zz") {
                break;
            }
            len += line + 1;
            n += 1;
        }
        if n > 0 { Some((len, n, indent)) } else { None }
    }
    loop {
        let o = &old[out.len()..];
        if out.is_empty() || out.ends_with('\n') {
            if let Some((len, k, _)) = block(rest) {
                rest = &rest[len..];
                n += k;
            }
        }
        if let Some(r) = rest.strip_prefix('\n')
            && let Some((len, k, indent)) = block(r)
            && !(o.starts_with('\n') && o[1..].starts_with(&r[len..len + indent.min(r.len() - len)]) && r[..len].len() > 0 && rest[1 + len..] == o[1..])
            && r[len..].len() >= indent
            && o.chars().next() == r[len + indent..].chars().next()
            && o.chars().next() != Some('\n')
        {
            rest = &r[len + indent..];
            n += k;
            continue;
        }
        let Some(c) = rest.chars().next() else { break };
        if !o.starts_with(c) {
            return None;
        }
        out.push(c);
        rest = &rest[c.len_utf8()..];
    }
    Some((out, n))
}
fn lint(text: &str, name: &str) -> Option<Vec<(usize, String)>> {
    let a = ArgsConfig {
        files: vec![],
        fix: false,
        unsafe_fixes: false,
        fix_only: false,
        select: format!("{RULES},{WRONG}"),
        extend_select: String::new(),
        ignore: String::new(),
        min_r_version: None,
        allow_dirty: false,
        allow_no_vcs: true,
        assignment: None,
    };
    let c = build_config(&a, None, vec![]).unwrap();
    let d = jarl_core::check::get_checks(text, std::path::Path::new(name), &c, &Default::default()).ok()?;
    Some(d.iter().map(|d| (u32::from(d.range.start()) as usize, d.message.name.clone())).collect())
}
fn add() {
    mockfs::reset();
    let (n, all) = (param(0), param(1) == 1);
    let rmd = param(2) == 1;
    let mut text = String::new();
    let mut nested = false;
    for i in 0..n {
        // The statements after the first one are of fewer kinds.
        let s = S[choose(if i > 0 { 5 } else if all { S.len() } else { 12 })];
        let a = choose(if i == 0 { E.len() } else { 2 });
        nested |= s.starts_with("f(function(a) @");
        let mut first = true;
        for p in s.split('@') {
            if !first {
                text.push_str(E[a]);
            }
            first = false;
            text.push_str(p);
        }
        text.push('\n');
    }
    if flag() {
        text = text.replace('\n', "\r\n");
    } else if !rmd && flag() {
        text.pop();
    }
    if rmd {
        text = format!("# é any(is.na(x))\n\n```{{r}}\n{text}```\n\n```{{r, a=1}}\nany(is.na(x))\n```\n");
    }
    let name = if rmd { "a.Rmd" } else { "a.R" };
    let Some(before) = lint(&text, name) else {
        check(false, "the_template_parses");
        return;
    };
    // Only suppression comments that are in order.
    assume(before.iter().all(|d| RULES.split(',').any(|r| r == d.1)));
    mockfs::add_file(&format!("/w/{name}"), text.as_bytes());
    mockfs::add_file("/w/clean.R", b"x <- 1\n");
    let r = crate::run(&[".", "--select", RULES, "--add-jarl-ignore=zz"]);
    let new = String::from_utf8(mockfs::file(&format!("/w/{name}")).unwrap().to_vec()).unwrap();
    note(|| format!("before {before:?}\n{text:?}\n{new}\n{}", r.out));
    check(r.code == Some(0), "it_succeeds");
    check(mockfs::file("/w/clean.R") == Some(b"x <- 1\n"), "other_files_stay_as_they_are");
    if before.is_empty() {
        check(new == text, "without_violations_nothing_changes");
        reach("clean");
        return;
    }
    reach("violation");
    match without(&new, &text) {
        Some((old, k)) => {
            check(old == text && k > 0, "only_comments_are_inserted");
            check(r.out.contains(&format!("Added {k} suppression comment(s) across 1 file(s).")), "the_number_of_comments_is_said");
        }
        None => check(false, "only_comments_are_inserted"),
    }
    match lint(&new, name) {
        Some(after) => {
            note(|| format!("after {after:?}"));
            check(after.iter().all(|d| !RULES.split(',').any(|r| r == d.1)), "no_violation_is_left");
            let ok = after.iter().all(|d| RULES.split(',').any(|r| r == d.1));
            check(ok || !nested, "a_comment_is_needed_if_another_is_added_around_it");
            check(ok || nested, "every_comment_is_in_order");
        }
        None => check(false, "the_code_still_parses"),
    }
}
pub fn run(i: u32) {
    match i {
        20 => add(),
        _ => {}
    }
}
