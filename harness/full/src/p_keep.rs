//! Fixes lose none of the code they rewrite.
use crate::p_rule::*;
use crate::rt::*;
use crate::*;
use air_r_syntax::RSyntaxKind as K;
use biome_rowan::{Direction, NodeOrToken};

/// Rule, outer function, inner function and its arguments (or ""), other
/// arguments.
const CALLS: [(&str, &str, &str, &[&str], &[&str]); 40] = [
    ("any_is_na", "any", "is.na", &["x"], &[]),
    ("any_duplicated", "any", "duplicated", &["x"], &[]),
    ("which_grepl", "which", "grepl", &["\"a\"", "x"], &[]),
    ("length_levels", "length", "levels", &["x"], &[]),
    ("all_equal", "isFALSE", "all.equal", &["x", "y"], &[]),
    ("outer_negation", "any", "", &[], &["!x"]),
    ("outer_negation", "all", "", &[], &["!x"]),
    ("class_equals", "identical", "class", &["x"], &["\"a\""]),
    ("expect_length", "expect_equal", "length", &["x"], &["2L"]),
    ("expect_match", "expect_true", "grepl", &["\"a\"", "x"], &[]),
    ("expect_no_match", "expect_false", "grepl", &["\"a\"", "x"], &[]),
    ("expect_match", "expect_true", "grepl", &["x = x", "pattern = \"a\""], &[]),
    ("expect_named", "expect_equal", "names", &["x"], &["\"a\""]),
    ("expect_not", "expect_true", "", &[], &["!x"]),
    ("expect_null", "expect_true", "is.null", &["x"], &[]),
    ("expect_null", "expect_identical", "", &[], &["x", "NULL"]),
    ("expect_s3_class", "expect_equal", "class", &["x"], &["\"a\""]),
    ("expect_true_false", "expect_equal", "", &[], &["x", "TRUE"]),
    ("expect_type", "expect_equal", "typeof", &["x"], &["\"double\""]),
    ("expect_type", "expect_true", "is.character", &["x"], &[]),
    ("fixed_regex", "grep", "", &[], &["\"a\"", "x"]),
    ("fixed_regex", "gsub", "", &[], &["\"a\"", "y", "x"]),
    ("fixed_regex", "regexpr", "", &[], &["text = x", "pattern = 'a'"]),
    ("grepv", "grep", "", &[], &["\"a\"", "x", "value = TRUE"]),
    ("length_test", "length", "", &[], &["x == 1"]),
    ("lengths", "sapply", "", &[], &["x", "length"]),
    ("lengths", "sapply", "", &[], &["FUN = length", "x"]),
    ("lengths", "vapply", "", &[], &["x", "length", "integer(1)"]),
    ("list2df", "do.call", "", &[], &["cbind.data.frame", "x"]),
    ("list2df", "do.call", "", &[], &["args = x", "what = \"cbind.data.frame\""]),
    ("matrix_apply", "apply", "", &[], &["x", "1", "sum"]),
    ("matrix_apply", "apply", "", &[], &["X = x", "FUN = mean", "MARGIN = 2"]),
    ("redundant_ifelse", "ifelse", "", &[], &["x", "TRUE", "FALSE"]),
    ("redundant_ifelse", "ifelse", "", &[], &["no = TRUE", "x", "yes = FALSE"]),
    ("sample_int", "sample", "", &[], &["1:x", "2"]),
    ("sample_int", "sample", "", &[], &["size = 2", "1:x"]),
    ("seq2", "seq", "length", &["x"], &[]),
    ("seq2", "seq", "nrow", &["x"], &[]),
    ("sprintf", "sprintf", "", &[], &["\"x\""]),
    ("system_file", "system.file", "file.path", &["x", "\"a\""], &["package = \"b\""]),
];
/// An argument more.
const EXTRA: [&str; 9] =
    ["p1", "k = p1", "na.rm = p1", "p1, p2", "value = FALSE", "fixed = p1", "fixed = F", "USE.NAMES = p1", "info = p1"];

/// A tree in which pipes are calls, and without parentheses. Names of
/// arguments that a call has twice, or arguments without a value, are problems.
fn meaning(n: &Node, out: &mut String, bad: &mut bool) {
    let kids: Vec<Node> = n.children().collect();
    match n.kind() {
        K::R_PARENTHESIZED_EXPRESSION => kids.iter().for_each(|c| meaning(c, out, bad)),
        K::R_CALL => call(n, None, out, bad),
        K::R_BINARY_EXPRESSION
            if kids.len() == 2 && kids[1].kind() == K::R_CALL && n.tokens().any(|t| t.kind() == K::PIPE) =>
        {
            call(&kids[1], Some(&kids[0]), out, bad)
        }
        _ => {
            out.push_str(&format!(" ({:?}", n.kind()));
            for e in n.children_with_tokens() {
                match e {
                    NodeOrToken::Node(n) => meaning(&n, out, bad),
                    NodeOrToken::Token(t) => {
                        out.push(' ');
                        out.push_str(t.text_trimmed());
                    }
                }
            }
            out.push(')');
        }
    }
}
fn call(n: &Node, first: Option<&Node>, out: &mut String, bad: &mut bool) {
    let kids: Vec<Node> = n.children().collect();
    out.push_str(" (call");
    meaning(&kids[0], out, bad);
    if let Some(x) = first {
        out.push_str(" (arg");
        meaning(x, out, bad);
        out.push(')');
    }
    let mut names: Vec<String> = vec![];
    for list in kids[1].children() {
        for a in list.children() {
            let t = a.text_trimmed().to_string();
            if t.is_empty() {
                *bad = true;
            }
            if let Some(c) = a.children().find(|c| c.kind() == K::R_ARGUMENT_NAME_CLAUSE) {
                let name = c.text_trimmed().to_string();
                if names.contains(&name) {
                    *bad = true;
                }
                names.push(name);
            }
            out.push_str(" (arg");
            for c in a.children() {
                if c.kind() == K::R_ARGUMENT_NAME_CLAUSE {
                    out.push_str(&format!(" {}", c.text_trimmed()));
                } else {
                    meaning(&c, out, bad);
                }
            }
            out.push(')');
        }
        // `f(a, )`
        if list.tokens().count() > 0 && list.tokens().count() >= list.children().count() {
            *bad = true;
        }
    }
    out.push(')');
}
/// What the code becomes, if it is reported and fixed.
fn fixed(text: &str, c: &Config) -> Option<Option<String>> {
    let d = lint(text, "a.R", c)?;
    note(|| format!("{text:?} {d:?}"));
    let mut f = d.iter().filter(|d| !d.fix.to_skip && !d.fix.content.is_empty());
    let Some(d) = f.next() else {
        return Some(None);
    };
    check(f.next().is_none(), "one_violation_has_one_fix");
    let new = format!("{}{}{}", &text[..d.fix.start], d.fix.content, &text[d.fix.end..]);
    note(|| format!("{new:?}"));
    Some(Some(new))
}
fn word(s: &str, w: &str) -> bool {
    s.split(|c: char| !c.is_alphanumeric()).any(|x| x == w)
}
fn args_are_kept() {
    let (rule, outer, inner, iargs, oargs) = CALLS[choose(CALLS.len())];
    let mut o: Vec<String> = oargs.iter().map(|s| s.to_string()).collect();
    let mut i: Vec<String> = iargs.iter().map(|s| s.to_string()).collect();
    // Where to add an argument: the outer call, the inner one, or nowhere.
    let n = o.len() + usize::from(!inner.is_empty());
    let at = choose(n + 1 + if inner.is_empty() { 0 } else { i.len() + 1 } + 1);
    let last = n + 1 + if inner.is_empty() { 0 } else { i.len() + 1 };
    // Functions that have other arguments.
    assume(at <= n || at == last || ["grepl", "all.equal", "duplicated", "file.path"].contains(&inner));
    let extra = if at == last { "" } else { EXTRA[choose(EXTRA.len())] };
    let mut first = String::new();
    if at > n && at < last {
        i.insert(at - n - 1, extra.to_string());
    }
    let inner_plain = |i: &[String]| format!("{inner}({})", i.join(", "));
    if !inner.is_empty() {
        first = inner_plain(&i);
        o.insert(0, first.clone());
    }
    if at <= n {
        o.insert(at, extra.to_string());
    }
    assume(!(extra == "value = FALSE" && o.iter().any(|a| a == "value = TRUE")));
    let plain = format!("{outer}({})", o.join(", "));
    let way = choose(3);
    let piped = if way == 0 {
        plain.clone()
    } else {
        // The first argument can be piped, and the inner call's too.
        assume(!o[0].contains(" = ") && !o[0].contains("p1, p2") && !o[0].starts_with('!') && !o[0].contains("=="));
        let rest = o[1..].join(", ");
        let mut head = o[0].clone();
        if head.contains(':') {
            head = format!("({head})");
        }
        if way == 2 {
            assume(o[0] == first && !first.is_empty() && !i[0].contains(" = ") && i[0] != "p1, p2");
            head = format!("{} |> {inner}({})", i[0], i[1..].join(", "));
        }
        format!("{head} |> {outer}({rest})")
    };
    let c = config_of(rule);
    let Some(new) = fixed(&format!("{piped}\n"), &c) else {
        check(false, "code_that_parses_is_linted");
        return;
    };
    let Some(new) = new else { return };
    let Some(tree) = root(&new) else {
        check(false, "fixed_code_parses");
        return;
    };
    let (mut got, mut bad, mut s) = (String::new(), false, String::new());
    let mut old = false;
    meaning(&root(&format!("{piped}\n")).unwrap(), &mut s, &mut old);
    meaning(&tree, &mut got, &mut bad);
    check(old || !bad, "fixed_code_has_no_empty_or_repeated_arguments");
    check(!word(&plain, "x") || word(&new, "x"), "a_fix_keeps_the_code");
    // Duplicates and missing values don't depend on missing values.
    let may = matches!(rule, "any_is_na" | "any_duplicated") && extra == "na.rm = p1" && at <= n;
    check(may || !word(&plain, "p1") || word(&new, "p1"), "a_fix_keeps_all_arguments");
    check(!word(&plain, "p2") || word(&new, "p2"), "a_fix_keeps_all_arguments");
    check(extra != "value = FALSE" || !new.contains("grepv"), "grep_for_positions_is_not_grep_for_values");
    reach("fixed");
    if way > 0 {
        reach("piped");
        // The same as without pipes.
        match fixed(&format!("{plain}\n"), &c) {
            Some(Some(other)) => {
                let (mut want, mut b) = (String::new(), false);
                meaning(&root(&other).unwrap(), &mut want, &mut b);
                check(want == got, "code_with_pipes_is_fixed_as_if_it_was_without");
            }
            _ => check(false, "code_with_pipes_is_only_fixed_if_it_would_be_without"),
        }
    }
}
/// Functions with one argument, and no other.
const ONE: [&str; 17] = ["integer", "substr", "substring", "is.na", "is.null", "is.character", "is.numeric", "is.integer", "is.nan", "class", "levels", "names", "typeof", "nrow", "ncol", "NROW", "NCOL"];
/// One more argument in any call of a violation.
fn any_call() {
    let (rule, bad, good) = CASES[choose(CASES.len())];
    assume(!good.is_empty());
    let bad = bad.replace(['@', '$'], "x").replace('§', "y");
    let tree = root(&bad).unwrap();
    let calls: Vec<Node> = tree.descendants().filter(|n| n.kind() == K::R_CALL).collect();
    assume(!calls.is_empty());
    let at = &calls[choose(calls.len())];
    let kids: Vec<Node> = at.children().collect();
    let name = kids[0].text_trimmed().to_string();
    assume(!ONE.contains(&name.as_str()) && name != "length");
    let r = kids[1].text_trimmed_range();
    let (a, b) = (u32::from(r.start()) as usize, u32::from(r.end()) as usize);
    // Only the last of them matters, and its own string not.
    assume(name != "nchar" || bad[b..].starts_with(')') && !bad.contains("abc"));
    // Others name further columns to sort by.
    let extra = if name == "order" {
        ["p1", "method = p1", "na.last = p1", "decreasing = p1"][choose(if bad.contains("decreasing") { 3 } else { 4 })]
    } else {
        ["p1", "k = p1", "na.rm = p1", "type = \"p1\""][choose(4)]
    };
    let old = &bad[a + 1..b - 1];
    let args = if flag() { format!("{extra}, {old}") } else { format!("{old}, {extra}") };
    let text = format!("{}({args}){}\n", &bad[..a], &bad[b..]);
    assume(root(&text).is_some());
    let Some(new) = fixed(&text, &config_of(rule)) else {
        check(false, "code_that_parses_is_linted");
        return;
    };
    let Some(new) = new else { return };
    check(root(&new).is_some(), "fixed_code_parses");
    // Duplicates and missing values don't depend on missing values.
    let may = matches!(rule, "any_is_na" | "any_duplicated") && extra == "na.rm = p1" && name == "any";
    check(may || word(&new, "p1"), "a_fix_keeps_all_arguments");
    reach("fixed");
}
fn comments_are_kept() {
    let (rule, bad, good) = CASES[choose(CASES.len())];
    assume(!good.is_empty());
    let bad = bad.replace(['@', '$'], "x").replace('§', "y");
    let Some(tree) = root(&bad) else {
        assume(false);
        return;
    };
    let mut cuts: Vec<usize> = tree
        .descendants_tokens(Direction::Next)
        .map(|t| u32::from(t.text_trimmed_range().start()) as usize)
        .filter(|&a| a < bad.len())
        .collect();
    cuts.dedup();
    cuts.push(bad.len());
    // One comment anywhere, and maybe another before or after everything.
    let i = choose(cuts.len());
    let more = choose(3);
    let mut text = format!("{}# c1\n{}", &bad[..cuts[i]], &bad[cuts[i]..]);
    match more {
        1 => text = format!("# c2\n{text}"),
        2 => text = format!("{} # c2", text.trim_end()),
        _ => {}
    }
    text.push('\n');
    assume(root(&text).is_some());
    let c = config_of(rule);
    let Some(Some(new)) = fixed(&text, &c) else { return };
    check(root(&new).is_some(), "fixed_code_parses");
    check(new.contains("# c1") && (more == 0 || new.contains("# c2")), "a_fix_keeps_all_comments");
    reach("fixed");
}
/// Arguments of functions, in order.
const FORMALS: [(&str, &[&str]); 38] = [
    ("substr", &["x", "start", "stop"]),
    ("substring", &["text", "first", "last"]),
    ("startsWith", &["x", "prefix"]),
    ("endsWith", &["x", "suffix"]),
    ("nchar", &["x", "type"]),
    ("sapply", &["X", "FUN"]),
    ("vapply", &["X", "FUN", "FUN.VALUE"]),
    ("lengths", &["x", "use.names"]),
    ("apply", &["X", "MARGIN", "FUN"]),
    ("rowSums", &["x", "na.rm"]),
    ("colSums", &["x", "na.rm"]),
    ("do.call", &["what", "args"]),
    ("list2DF", &["x", "nrow"]),
    ("ifelse", &["test", "yes", "no"]),
    ("if_else", &["condition", "true", "false"]),
    ("sample", &["x", "size", "replace"]),
    ("sample.int", &["n", "size", "replace"]),
    ("seq", &["from", "to", "by"]),
    ("seq_len", &["length.out"]),
    ("seq_along", &["along.with"]),
    ("grep", &["pattern", "x", "ignore.case", "perl", "value"]),
    ("grepv", &["pattern", "x", "ignore.case", "perl"]),
    ("grepl", &["pattern", "x", "ignore.case"]),
    ("gsub", &["pattern", "replacement", "x"]),
    ("regexpr", &["pattern", "text", "ignore.case"]),
    ("expect_equal", &["object", "expected"]),
    ("expect_identical", &["object", "expected"]),
    ("expect_true", &["object", "info"]),
    ("expect_match", &["object", "regexp"]),
    ("expect_length", &["object", "n"]),
    ("expect_named", &["object", "expected"]),
    ("expect_type", &["object", "type"]),
    ("expect_s3_class", &["object", "class"]),
    ("expect_null", &["object", "info"]),
    ("identical", &["x", "y"]),
    ("inherits", &["x", "what"]),
    ("all.equal", &["target", "current"]),
    ("download.file", &["url", "destfile", "method", "quiet", "mode"]),
];
/// Rule, code around the call, its function, and values of its arguments.
const NAMED: [(&str, &str, &str, &[&str]); 32] = [
    ("string_boundary", "@ == \"abc\"", "substr", &["v", "1L", "3L"]),
    ("string_boundary", "\"abc\" != @", "substring", &["v", "1", "n"]),
    ("string_boundary", "@ == \"abc\"", "substring", &["v", "3", "nchar(v)"]),
    ("lengths", "@", "sapply", &["v", "length"]),
    ("lengths", "@", "vapply", &["v", "length", "integer(1)"]),
    ("matrix_apply", "@", "apply", &["v", "1", "sum"]),
    ("matrix_apply", "@", "apply", &["1", "2", "sum"]),
    ("list2df", "@", "do.call", &["cbind.data.frame", "v"]),
    ("redundant_ifelse", "@", "ifelse", &["v", "TRUE", "FALSE"]),
    ("redundant_ifelse", "@", "dplyr::if_else", &["v", "FALSE", "TRUE"]),
    ("sample_int", "@", "sample", &["1:10", "2"]),
    ("sample_int", "@", "sample", &["1:10", "1:2", "v"]),
    ("seq2", "@", "seq", &["length(v)"]),
    ("seq2", "@", "seq", &["nrow(v)"]),
    ("fixed_regex", "@", "grep", &["\"a\"", "v"]),
    ("fixed_regex", "@", "grepl", &["\"a\"", "\"b\"", "TRUE"]),
    ("fixed_regex", "@", "gsub", &["\"a\"", "\"b.\"", "v"]),
    ("fixed_regex", "@", "regexpr", &["\"a\"", "\"b.\""]),
    ("grepv", "@", "grep", &["\"a.\"", "v", "TRUE"]),
    ("which_grepl", "which(@)", "grepl", &["\"a\"", "v"]),
    ("expect_match", "expect_true(@)", "grepl", &["\"a\"", "v"]),
    ("expect_null", "@", "expect_equal", &["v", "NULL"]),
    ("expect_null", "@", "expect_true", &["is.null(v)"]),
    ("expect_true_false", "@", "expect_identical", &["v", "TRUE"]),
    ("expect_length", "@", "expect_equal", &["length(v)", "2L"]),
    ("expect_named", "@", "expect_equal", &["names(v)", "\"a\""]),
    ("expect_s3_class", "@", "expect_equal", &["class(v)", "\"a\""]),
    ("expect_type", "@", "expect_identical", &["typeof(v)", "\"double\""]),
    ("class_equals", "@", "identical", &["class(v)", "\"a\""]),
    ("all_equal", "isFALSE(@)", "all.equal", &["v", "w"]),
    ("all_equal", "if (@) 1", "all.equal", &["v", "w"]),
    ("download_file", "@", "download.file", &["v", "w", "\"wb\""]),
];
fn formals(f: &str) -> Option<&'static [&'static str]> {
    let f = f.rsplit(':').next().unwrap();
    FORMALS.iter().find(|x| x.0 == f).map(|x| x.1)
}
/// What each argument is for, as R matches them.
fn matched(formals: &[&str], names: &[Option<String>]) -> Vec<String> {
    let mut free = formals.iter().filter(|f| !names.iter().any(|n| n.as_deref() == Some(**f)));
    names.iter().map(|n| n.clone().unwrap_or_else(|| free.next().map_or("?".into(), |f| f.to_string()))).collect()
}
/// The tree, calls having each argument with what it is for.
fn roles(n: &Node, out: &mut String) {
    let kids: Vec<Node> = n.children().collect();
    if n.kind() == K::R_PARENTHESIZED_EXPRESSION {
        return kids.iter().for_each(|c| roles(c, out));
    }
    if n.kind() == K::R_CALL {
        let f = kids[0].text_trimmed().to_string();
        let args: Vec<Node> = kids[1].children().flat_map(|l| l.children().collect::<Vec<_>>()).collect();
        let names: Vec<Option<String>> = args.iter().map(|a| {
            let c = a.children().find(|c| c.kind() == K::R_ARGUMENT_NAME_CLAUSE)?;
            Some(c.text_trimmed().to_string().trim_end_matches(['=', ' ']).to_string())
        }).collect();
        let to = match formals(&f) {
            Some(l) => matched(l, &names),
            None => names.iter().map(|n| n.clone().unwrap_or_default()).collect(),
        };
        let mut l: Vec<String> = args.iter().zip(to).map(|(a, t)| {
            let mut s = format!(" {t}=");
            a.children().filter(|c| c.kind() != K::R_ARGUMENT_NAME_CLAUSE).for_each(|c| roles(&c, &mut s));
            s
        }).collect();
        if formals(&f).is_some() {
            l.sort();
        }
        return out.push_str(&format!(" ({f}{})", l.concat()));
    }
    out.push_str(&format!(" ({:?}", n.kind()));
    for e in n.children_with_tokens() {
        match e {
            NodeOrToken::Node(n) => roles(&n, out),
            NodeOrToken::Token(t) => {
                out.push(' ');
                out.push_str(t.text_trimmed());
            }
        }
    }
    out.push(')');
}
/// The arguments of a call in any order, by name or not.
fn named() {
    let (rule, around, f, values) = NAMED[choose(NAMED.len())];
    let l = formals(f).unwrap();
    let mut left: Vec<&str> = values.to_vec();
    let (mut order, mut names) = (vec![], vec![]);
    while !left.is_empty() {
        order.push(left.remove(choose(left.len())));
        let free: Vec<&&str> = l.iter().filter(|f| !names.contains(&Some(f.to_string()))).collect();
        let k = choose(free.len() + 1);
        names.push(free.get(k).map(|f| f.to_string()));
    }
    let to = matched(l, &names);
    let call = |a: Vec<String>| format!("{}\n", around.replace('@', &format!("{f}({})", a.join(", "))));
    let text = call(order.iter().zip(&names).map(|(v, n)| n.as_ref().map_or(v.to_string(), |n| format!("{n} = {v}"))).collect());
    // In order, without names as long as possible.
    let mut all: Vec<(usize, &str)> = to.iter().zip(&order).map(|(t, v)| (l.iter().position(|f| f == t).unwrap(), *v)).collect();
    all.sort();
    let plain = call(all.iter().enumerate().map(|(i, (k, v))| if i == *k { v.to_string() } else { format!("{} = {v}", l[*k]) }).collect());
    let c = config_of(rule);
    let (Some(d), Some(e)) = (lint(&text, "a.R", &c), lint(&plain, "a.R", &c)) else {
        check(false, "code_that_parses_is_linted");
        return;
    };
    note(|| format!("{text:?} {} {plain:?} {}", d.len(), e.len()));
    check(d.is_empty() || !e.is_empty(), "names_and_order_of_arguments_do_not_matter");
    let (Some(Some(new)), Some(Some(want))) = (fixed(&text, &c), fixed(&plain, &c)) else { return };
    let (mut g, mut w) = (String::new(), String::new());
    let Some(tree) = root(&new) else {
        check(false, "fixed_code_parses");
        return;
    };
    roles(&tree, &mut g);
    roles(&root(&want).unwrap(), &mut w);
    check(g == w, "arguments_are_for_the_same_after_a_fix");
    reach("fixed");
}
/// Functions that rules are about.
const FUNCTIONS: [&str; 66] = [
    "any", "all", "which", "length", "isFALSE", "all.equal", "identical", "class", "inherits", "browser",
    "download.file", "list", "expect_equal", "expect_identical", "expect_true", "expect_false", "grepl", "is.null",
    "is.character", "names", "typeof", "grep", "gsub", "sub", "regexpr", "gregexpr", "sapply", "vapply", "map_int",
    "do.call", "apply", "ifelse", "if_else", "fifelse", "sample", "seq", "nrow", "sprintf", "system.file", "file.path",
    "is.na", "duplicated", "levels", "is.numeric", "substr", "substring", "nchar", "switch",
    "NULL", "NA", "Inf", "TRUE", "..1", "...", "\"f\"", "1", "1i", "(\\(x) x)", "a$any", "a@b", "a[[1]]", "a[1]", "any()",
    "base::any", "{any}", "next",
];
const ARG: [&str; 34] = [
    "", "x", "...", "TRUE", "NULL", "\"a\"", "1", "1:3", "!x", "x == 1", "length", "sum", "mean", "cbind.data.frame",
    "is.na()", "grepl()", "class()", "length()", "names()", "levels()", "is.null()", "typeof()", "file.path()",
    "x = ", "X = ", "FUN = ", "object = ", "expected = ", "pattern = ", "value = ", "fixed = ", "fmt = ", "n = ",
    "\"x\" = ",
];
/// Calls with unusual arguments.
fn odd_calls() {
    let n = param(0) as usize;
    let mut args = vec![];
    let f = FUNCTIONS[choose(FUNCTIONS.len())];
    for _ in 0..choose(n + 1) {
        args.push(ARG[choose(ARG.len())]);
    }
    let call = format!("{f}({})", args.join(", "));
    let text = match choose(param(1)) {
        0 => format!("{call}\n"),
        1 => format!("x |> {call}\n"),
        2 => format!("{call} |> any()\n"),
        3 => format!("if ({call} == \"a\" && {call}) 1:{call}\n"),
        _ => format!("is.integer(x) || {call}[{call}]\n"),
    };
    assume(root(&text).is_some());
    let c = config_of("ALL");
    let d = lint(&text, "a.R", &c);
    note(|| format!("{text:?} {d:?}"));
    check(d.is_some(), "code_that_parses_is_linted");
    for d in d.unwrap_or_default() {
        check(usize::from(d.range.end()) <= text.len(), "what_is_reported_is_in_the_file");
        if !d.fix.to_skip && !d.fix.content.is_empty() {
            let new = format!("{}{}{}", &text[..d.fix.start], d.fix.content, &text[d.fix.end..]);
            note(|| format!("{new:?}"));
            check(root(&new).is_some(), "fixed_code_parses");
            reach("fixed");
        }
    }
}
pub fn run(i: u32) {
    match i {
        45 => args_are_kept(),
        46 => comments_are_kept(),
        47 => odd_calls(),
        48 => any_call(),
        49 => named(),
        _ => {}
    }
}
