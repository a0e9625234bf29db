//! Rules that judge code by where it stands.
use crate::rt::*;
use crate::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    /// In a block, whose statements stand on their own.
    Block,
    /// An argument of a call, and whether that function is skipped.
    Call(bool),
    Subset,
    /// A value that `if`, `while` or `for` look at.
    Cond,
    /// Body of `if`, a loop, or inside of an operator.
    Pass,
    /// Body of a function.
    Fun,
}
const AROUND: [(&str, &str, At); 22] = [
    ("f(", ")", At::Call(false)),
    ("g(a, k = ", ", b)", At::Call(false)),
    ("expect_error(", ")", At::Call(true)),
    ("base::quote(a, ", ")", At::Call(true)),
    ("v[", ", 1]", At::Subset),
    ("{", "}", At::Block),
    ("{\na\n", "\nb\n}", At::Block),
    ("if (", ") b", At::Cond),
    ("while (", ") b", At::Cond),
    ("for (i in ", ") b", At::Cond),
    ("if (a) b else if (", ") d", At::Cond),
    ("if (a) ", "", At::Pass),
    ("if (a) b else ", "", At::Pass),
    ("if (a) ", " else b", At::Pass),
    ("while (a) ", "", At::Pass),
    ("for (i in a) ", "", At::Pass),
    ("repeat ", "", At::Pass),
    ("(", ")", At::Pass),
    ("z <- ", "", At::Pass),
    ("b + (", ") * d", At::Pass),
    ("!(", ")", At::Pass),
    ("function(a) ", "", At::Fun),
];
fn assignments() {
    let n = choose(param(0) + 1);
    let (mut pre, mut post) = (String::new(), String::new());
    let mut path: Vec<At> = vec![];
    for _ in 0..n {
        let (a, b, at) = AROUND[choose(AROUND.len())];
        pre.push_str(a);
        post.insert_str(0, b);
        path.insert(0, at);
    }
    let x = ["x <- 1", "x <<- 1", "1 -> x", "1 ->> x"][choose(if n > 1 { 1 } else { 4 })];
    let text = format!("{pre}{x}{post}\n");
    note(|| text.clone());
    let Some(d) = lint(&text, "a.R", &config("implicit_assignment")) else {
        return;
    };
    let (s, e) = (pre.len(), pre.len() + x.len());
    let got = d.iter().filter(|d| usize::from(d.range.start()) == s && usize::from(d.range.end()) == e).count();
    note(|| format!("{d:?}"));
    check(got <= 1, "reported_once");
    // Innermost first, up to the block that the assignment is a statement of.
    let near = path.iter().position(|a| *a == At::Block).map_or(&path[..], |i| &path[..i]);
    if near.contains(&At::Fun) {
        return reach("function");
    }
    let used = near.iter().any(|a| !matches!(a, At::Pass));
    if !used {
        reach("statement");
        return check(got == 0, "a_statement_is_no_implicit_assignment");
    }
    match path.iter().find(|a| matches!(a, At::Call(_))) {
        Some(At::Call(true)) if near.iter().any(|a| matches!(a, At::Call(_))) => {
            reach("skipped");
            check(got == 0, "skipped_functions_are_skipped");
        }
        // In a block in such a call.
        Some(At::Call(true)) => {}
        _ => {
            reach("used");
            check(got == 1, "an_assignment_in_a_value_is_reported");
        }
    }
}
/// `&` and `|` where one value is needed.
fn logic() {
    let (pre, post, cond) = [
        ("if (", ") y", true),
        ("while (", ") y", true),
        ("if (", ") y else z", true),
        ("if (a) b else if (", ") y", true),
        ("while (a) { if (", ") y }", true),
        ("if (", ") { if (a && b) y }", true),
        ("for (i in ", ") y", false),
        ("if (a) ", "", false),
        ("if (a) y else ", "", false),
        ("while (a) ", "", false),
        ("f(", ")", false),
        ("if (f(", ")) y", false),
        ("if (v[", "]) y", false),
        ("if (!(", ")) y", false),
        ("if (a && (", ")) y", false),
        ("z <- ", "", false),
        ("repeat { ", " }", false),
        ("if ({ ", " }) y", false),
    ][choose(18)];
    const X: [(&str, bool); 12] = [
        ("a", false), ("as.raw(1)", true), ("x > 1", false), ("\"a\"", true), ("f(x)", false), ("!b", false),
        ("as.hexmode(x)", true), ("(a)", false), ("as.octmode(\"7\")", true), ("TRUE", false), ("a[1]", false),
        ("x$as.rawx(1)", false),
    ];
    let n = param(0);
    let ((l, lb), (r, rb)) = (X[choose(n)], X[choose(n)]);
    let op = ["&", "|", "&&", "||", "==", "+", "%&%", "%|%"][choose(8)];
    let mid = format!("{l} {op} {r}");
    // A comparison or sum takes a part of `!b` or `x > 1`.
    assume(op.starts_with(['&', '|']) || (l != "!b" && r != "!b" && l != "x > 1" && r != "x > 1"));
    let text = format!("{pre}{mid}{post}\n");
    note(|| text.clone());
    let Some(d) = lint(&text, "a.R", &config("vector_logic")) else {
        return;
    };
    let want = cond && (op == "&" || op == "|") && !lb && !rb;
    reach(if want { "vector" } else { "fine" });
    check(d.len() == usize::from(want), "only_the_condition_itself_is_reported");
    for d in &d {
        check(usize::from(d.range.start()) == pre.len() && usize::from(d.range.end()) == pre.len() + mid.len(), "it_is_the_operation");
        check(d.message.body.starts_with(&format!("`{op}`")), "it_names_the_operator");
        check(d.message.body.contains("while") == (pre == "while ("), "it_names_the_statement");
    }
}
/// Loops in loops, and what they use.
fn loops() {
    const NAMES: [(&str, usize); 5] = [("i", 0), ("j", 1), ("`i`", 0), ("ii", 2), ("`j`", 1)];
    const IN: [(&str, &str); 8] = [
        ("", ""), ("{\n", "\n}"), ("{\nj <- i\n", "\ni\n}"), ("if (i) ", ""), ("if (i) {\nj\n} else {\n", "\n}"),
        ("while (j) ", ""), ("z <- ", ""), ("{\nfor (k in w) i\n", "\n}"),
    ];
    // Sequences, and the names they use.
    const SEQ: [(&str, &[usize]); 16] = [
        ("v", &[]), ("1:3", &[]), ("i", &[0]), ("j", &[1]), ("f(i)", &[0]), ("f(x, g(k = j))", &[1]), ("f(g(), `i`)", &[0]),
        ("a$i", &[]), ("a@j", &[]), ("f(i = 1)", &[0]), ("f(\"i\")", &[]), ("i(x)", &[]), ("ii", &[2]), ("f(iii, g(jj))", &[]),
        ("a[, i]", &[]), ("f(ii)(x)", &[]),
    ];
    let n = 1 + choose(param(0));
    let (mut text, mut post) = (String::new(), String::new());
    let mut outer: Vec<usize> = vec![];
    let (mut want_dup, mut want_index) = (vec![], vec![]);
    for k in 0..n {
        let (name, id) = NAMES[choose(if k == 0 { 3 } else { 5 })];
        let (seq, uses) = SEQ[if k == 0 { choose(16) } else { choose(3) }];
        let (a, b) = IN[choose(if k == 0 { 1 } else { 8 })];
        text.push_str(a);
        post.insert_str(0, b);
        text.push_str("for (");
        let s = text.len();
        text.push_str(name);
        text.push_str(" in ");
        text.push_str(seq);
        let span = (s, text.len());
        text.push_str(") ");
        if outer.contains(&id) {
            want_dup.push(span);
        }
        if uses.contains(&id) {
            want_index.push(span);
        }
        outer.push(id);
    }
    text.push_str("i");
    text.push_str(&post);
    text.push('\n');
    note(|| text.clone());
    for (rule, want) in [("for_loop_dup_index", &want_dup), ("for_loop_index", &want_index)] {
        let Some(d) = lint(&text, "a.R", &config(rule)) else {
            return;
        };
        let mut got: Vec<(usize, usize)> = d.iter().map(|d| (d.range.start().into(), d.range.end().into())).collect();
        got.sort();
        note(|| format!("{rule} {got:?} {want:?}"));
        if !want.is_empty() {
            reach(rule);
        }
        check(got == *want, rule);
    }
}
/// An `if` in an `if`.
fn nesting() {
    let outer = ["if", "while", "else if"][choose(3)];
    let (braced, inner) = (flag(), ["if", "while", "repeat"][choose(3)]);
    let (before, after) = (["", "a\n", "f()\n"][choose(3)], ["", "\nb", "; b", "\nif (d) b"][choose(4)]);
    let (else_in, else_out) = (["", " else e", " else if (d) e"][choose(3)], ["", " else g"][choose(2)]);
    assume(braced || (before.is_empty() && after.is_empty()));
    assume(outer != "while" || else_out.is_empty());
    assume(inner == "if" || else_in.is_empty());
    // An `else` belongs to the closest `if`.
    assume(braced || else_out.is_empty());
    let mut t = String::new();
    if outer == "else if" {
        t.push_str("if (w) k else ");
    }
    let s = t.len();
    t.push_str(if outer == "while" { "while (x) " } else { "if (x) " });
    if braced {
        t.push_str("{\n");
    }
    t.push_str(before);
    t.push_str(["if (y) ", "while (y) ", "repeat "][["if", "while", "repeat"].iter().position(|i| *i == inner).unwrap()]);
    t.push_str(["z", "{ z }"][choose(2)]);
    t.push_str(else_in);
    t.push_str(after);
    if braced {
        t.push_str("\n}");
    }
    t.push_str(else_out);
    let e = t.len();
    t.push('\n');
    note(|| t.clone());
    let Some(d) = lint(&t, "a.R", &config("unnecessary_nesting")) else {
        return;
    };
    note(|| format!("{d:?}"));
    let plain = outer != "while" && inner == "if" && before.is_empty() && after.is_empty();
    if !braced && plain && else_in.is_empty() {
        return reach("without_braces");
    }
    let want = plain && braced && else_in.is_empty() && else_out.is_empty();
    reach(if want { "nested" } else { "needed" });
    check(d.len() == usize::from(want), "only_needless_nesting_is_reported");
    check(!want || (usize::from(d[0].range.start()) == s && usize::from(d[0].range.end()) == e), "it_is_the_outer_one");
}
pub fn run(i: u32) {
    match i {
        65 => assignments(),
        66 => logic(),
        67 => loops(),
        68 => nesting(),
        _ => {}
    }
}
