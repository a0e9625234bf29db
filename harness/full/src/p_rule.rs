//! What rules report and how their fixes change the code.
use crate::rt::*;
use crate::*;
use air_r_parser::RParserOptions;
use air_r_syntax::RSyntaxKind;
use biome_rowan::{NodeOrToken, SyntaxNode};
pub type Node = SyntaxNode<air_r_syntax::RLanguage>;

/// Rule, code that violates it, and what its fix makes of it ("" if it has
/// none). `@` is any argument, `$` a piece of code that binds tightly, `§` code
/// that may bind loosely.
pub const CASES: [(&str, &str, &str); 127] = [
    ("any_is_na", "any(is.na(@))", "anyNA(@)"),
    ("any_duplicated", "any(duplicated(@))", "anyDuplicated(@) > 0"),
    ("outer_negation", "any(!$)", "!all($)"),
    ("outer_negation", "all(!$)", "!any($)"),
    ("equals_na", "$ == NA", "is.na($)"),
    ("equals_na", "$ != NA", "!is.na($)"),
    ("equals_nan", "$ == NaN", "is.nan($)"),
    ("equals_nan", "$ != NaN", "!is.nan($)"),
    ("equals_null", "$ == NULL", "is.null($)"),
    ("equals_null", "$ != NULL", "!is.null($)"),
    ("redundant_equals", "$ == TRUE", "$"),
    ("redundant_equals", "$ == FALSE", "!$"),
    ("redundant_equals", "$ != TRUE", "!$"),
    ("redundant_equals", "$ != FALSE", "$"),
    ("comparison_negation", "!($ < §)", "$ >= §"),
    ("comparison_negation", "!($ == §)", "$ != §"),
    ("comparison_negation", "!($ > §)", "$ <= §"),
    ("comparison_negation", "!($ != §)", "$ == §"),
    ("comparison_negation", "!($ <= §)", "$ > §"),
    ("comparison_negation", "!($ >= §)", "$ < §"),
    ("all_equal", "!all.equal(@, b)", "!isTRUE(all.equal(@, b))"),
    ("all_equal", "isFALSE(all.equal(@, b))", "!isTRUE(all.equal(@, b))"),
    ("all_equal", "if (all.equal(@, b)) 1", "if (isTRUE(all.equal(@, b))) 1"),
    ("all_equal", "while (all.equal(@, b)) 1", "while (isTRUE(all.equal(@, b))) 1"),
    ("class_equals", "if (class(@) == \"a\") 1", "if (inherits(@, \"a\")) 1"),
    ("class_equals", "if (class(@) != \"a\") 1", "if (!inherits(@, \"a\")) 1"),
    ("class_equals", "while (\"a\" %in% class(@)) 1", "while (inherits(@, \"a\")) 1"),
    ("class_equals", "identical(class(@), \"a\")", "inherits(@, \"a\")"),
    ("coalesce", "if (is.null(@)) § else @", "@ %||% §"),
    ("coalesce", "if (!is.null(@)) @ else §", "@ %||% §"),
    ("coalesce", "if (is.null(@)) {\n  §\n} else {\n  @\n}", "@ %||% §"),
    ("expect_length", "expect_equal(length(@), 2)", "expect_length(@, 2)"),
    ("expect_length", "expect_identical(2L, length(@))", "expect_length(@, 2L)"),
    ("expect_match", "expect_true(grepl(\"a\", @))", "expect_match(@, \"a\")"),
    ("expect_match", "expect_true(grepl(\"a\", @, perl = FALSE))", "expect_match(@, \"a\", perl = FALSE)"),
    ("expect_no_match", "expect_false(grepl(\"a\", @))", "expect_no_match(@, \"a\")"),
    ("expect_named", "expect_equal(names(@), \"a\")", "expect_named(@, \"a\")"),
    ("expect_named", "expect_identical(names(@), c(\"a\", \"b\"))", "expect_named(@, c(\"a\", \"b\"))"),
    ("expect_not", "expect_true(!$)", "expect_false($)"),
    ("expect_not", "expect_false(!$)", "expect_true($)"),
    ("expect_null", "expect_equal(@, NULL)", "expect_null(@)"),
    ("expect_null", "expect_true(is.null(@))", "expect_null(@)"),
    ("expect_s3_class", "expect_equal(class(@), \"a\")", "expect_s3_class(@, \"a\")"),
    ("expect_true_false", "expect_equal(@, TRUE)", "expect_true(@)"),
    ("expect_true_false", "expect_identical(@, FALSE)", "expect_false(@)"),
    ("expect_type", "expect_equal(typeof(@), \"double\")", "expect_type(@, \"double\")"),
    ("expect_type", "expect_true(is.character(@))", "expect_type(@, \"character\")"),
    ("fixed_regex", "grep(\"hello\", @)", "grep(\"hello\", @, fixed = TRUE)"),
    ("fixed_regex", "gsub(\"hello\", \"\", @)", "gsub(\"hello\", \"\", @, fixed = TRUE)"),
    ("grepv", "grep(\"i\", @, value = TRUE)", "grepv(\"i\", @)"),
    ("is_numeric", "is.numeric(@) || is.integer(@)", "is.numeric(@)"),
    ("is_numeric", "is.integer(@) || is.numeric(@)", "is.numeric(@)"),
    ("length_levels", "length(levels(@))", "nlevels(@)"),
    ("length_test", "length($ == 1)", "length($) == 1"),
    ("length_test", "length($ > §)", "length($) > §"),
    ("lengths", "sapply(@, length)", "lengths(@)"),
    ("lengths", "vapply(@, length, integer(1))", "lengths(@)"),
    ("list2df", "do.call(cbind.data.frame, @)", "list2DF(@)"),
    ("matrix_apply", "apply(@, 1, sum)", "rowSums(@)"),
    ("matrix_apply", "apply(@, 2, sum)", "colSums(@)"),
    ("matrix_apply", "apply(@, 1, mean)", "rowMeans(@)"),
    ("matrix_apply", "apply(@, 2, mean, na.rm = TRUE)", "colMeans(@, na.rm = TRUE)"),
    ("numeric_leading_zero", "c(.1, @)", "c(0.1, @)"),
    ("redundant_ifelse", "ifelse(@, TRUE, FALSE)", "@"),
    ("redundant_ifelse", "ifelse(@, FALSE, TRUE)", "!(@)"),
    ("redundant_ifelse", "dplyr::if_else($ > 1, FALSE, TRUE)", "!($ > 1)"),
    ("repeat", "while (TRUE) {\n  f(@)\n}", "repeat {\n  f(@)\n}"),
    ("sample_int", "sample(1:10, 2)", "sample.int(10, 2)"),
    ("seq", "1:nrow(@)", "seq_len(nrow(@))"),
    ("seq", "1:length(@)", "seq_along(@)"),
    ("seq2", "seq(nrow(@))", "seq_len(nrow(@))"),
    ("seq2", "seq(length(@))", "seq_along(@)"),
    ("sort", "x[order(x)]", "sort(x)"),
    ("sort", "$[order($)]", "sort($)"),
    ("seq", "1:ncol($)", "seq_len(ncol($))"),
    ("string_boundary", "\"abc\" == substr(@, 1L, 3L)", "startsWith(@, \"abc\")"),
    ("sort", "x[order(x, decreasing = TRUE)]", "sort(x, decreasing = TRUE)"),
    ("sprintf", "sprintf(\"abc\")", "\"abc\""),
    ("string_boundary", "substr(@, 1L, 3L) == \"abc\"", "startsWith(@, \"abc\")"),
    ("string_boundary", "substring(@, nchar(@) - 2L, nchar(@)) == \"xyz\"", "endsWith(@, \"xyz\")"),
    ("system_file", "system.file(file.path(\"a\", @), package = \"b\")", "system.file(\"a\", @, package = \"b\")"),
    ("true_false_symbol", "c(T, @)", ""),
    ("unnecessary_nesting", "if (@) {\n  if (§) {\n    1\n  }\n}", "if (@ && §) {\n    1\n  }"),
    ("which_grepl", "which(grepl(\"a\", @))", "grep(\"a\", @)"),
    ("assignment", "z = @", "z <- @"),
    ("any_is_na", "NA %in% $", "anyNA($)"),
    ("vector_logic", "if ($ & y) 1", ""),
    ("vector_logic", "while ($ | y) 1", ""),
    ("browser", "browser()", ""),
    ("undesirable_function", "browser()", ""),
    ("download_file", "download.file(@)", ""),
    ("download_file", "download.file(@, mode = \"w\")", ""),
    ("duplicated_arguments", "list(x = 1, x = @)", ""),
    ("if_always_true", "if (TRUE) {\n  @\n}", ""),
    ("if_always_true", "if (TRUE || $) 1", ""),
    ("sprintf", "sprintf(\"%s %s\", @)", ""),
    ("implicit_assignment", "mean(x <- @)", ""),
    ("for_loop_index", "for (x in x) {\n  @\n}", ""),
    ("for_loop_dup_index", "for (x in 1:3) {\n  for (x in y) {\n    @\n  }\n}", ""),
    // Written the other way round, or differently.
    ("equals_na", "NA == $", "is.na($)"),
    ("equals_na", "NA != $", "!is.na($)"),
    ("equals_nan", "NaN == $", "is.nan($)"),
    ("equals_null", "NULL != $", "!is.null($)"),
    ("redundant_equals", "TRUE == $", "$"),
    ("redundant_equals", "FALSE == $", "!$"),
    ("redundant_equals", "TRUE != $", "!$"),
    ("redundant_equals", "FALSE != $", "$"),
    ("class_equals", "if (\"a\" != class(@)) 1", "if (!inherits(@, \"a\")) 1"),
    ("class_equals", "if (class(@) %in% \"a\") 1", "if (inherits(@, \"a\")) 1"),
    ("class_equals", "identical(\"a\", class(@))", "inherits(@, \"a\")"),
    ("expect_null", "expect_equal(NULL, @)", "expect_null(@)"),
    ("expect_s3_class", "expect_identical(\"a\", class(@))", "expect_s3_class(@, \"a\")"),
    ("expect_true_false", "expect_equal(TRUE, @)", "expect_true(@)"),
    ("expect_type", "expect_equal(\"double\", typeof(@))", "expect_type(@, \"double\")"),
    ("lengths", "sapply(FUN = length, X = @)", "lengths(@)"),
    ("lengths", "map_int(@, length)", "lengths(@)"),
    ("seq", "1L:NROW(@)", "seq_len(NROW(@))"),
    ("seq2", "seq(NCOL(@))", "seq_len(NCOL(@))"),
    ("sample_int", "sample(1L:10L, size = @)", "sample.int(10L, size = @)"),
    ("string_boundary", "\"abc\" != substr(@, 1L, 3L)", "!startsWith(@, \"abc\")"),
    ("string_boundary", "substr(@, 1, nchar(\"abc\")) == \"abc\"", "startsWith(@, \"abc\")"),
    ("repeat", "while (TRUE) @", "repeat {\n  @\n}"),
    ("unnecessary_nesting", "if (@) {\n  if (§) 2\n}", "if (@ && §) 2"),
    ("matrix_apply", "apply(@, MARGIN = 1L, FUN = sum)", "rowSums(@)"),
    ("list2df", "do.call(\"cbind.data.frame\", @)", "list2DF(@)"),
    ("any_is_na", "NA_integer_ %in% $", "anyNA($)"),
    ("length_test", "length($ <= §)", "length($) <= §"),
];
/// Tight ones first.
pub const ARGS: [&str; 9] = ["a", "f(a, b = 2)", "x$y[[1]]", "(a + b)", "`é \"`", "a + b", "!a", "function(i) {\n  i\n}", "a %in% b"];
/// Where the code stands.
pub const CONTEXTS: [&str; 48] = [
    "@",
    "y <- @",
    "f(@)",
    "f(a = @, 2)",
    "{\n  @\n}",
    "if (z) @",
    "if (z) 1 else @",
    "g <- function(a = @) 1",
    "function(a) @",
    "\\(a) @",
    "x[@]",
    "x[[1, @]]",
    "(@)",
    "@; 1",
    "'é'; @",
    "for (i in 1) @",
    "repeat @",
    "# c\n@ # d",
    "a |> f(@)",
    "if (@) 1",
    "while (@) {\n}",
    "for (i in @) 1",
    "@ -> z",
    "y <<- @",
    "@ + 1",
    "1 + @",
    "-@",
    "!@",
    "@ * 2",
    "@ == 1",
    "1 == @",
    "@ && a",
    "a || @",
    "@ |> f()",
    "a ~ @",
    "~ @",
    "@$b",
    "@[1]",
    "@[[1]]",
    "@(1)",
    "a^@",
    "@^2",
    "1:@",
    "@:2",
    "a %in% @",
    "@ %in% a",
    "?@",
    "a - @ - b",
];
pub fn root(s: &str) -> Option<Node> {
    let p = air_r_parser::parse(s, RParserOptions::default());
    if p.has_error() { None } else { Some(p.syntax()) }
}
fn range(n: &Node) -> (usize, usize) {
    let r = n.text_trimmed_range();
    (u32::from(r.start()) as usize, u32::from(r.end()) as usize)
}
const LOOSE: [&str; 5] = ["y", "c + d", "c %in% d", "!c", "c || d"];
/// The tree without parentheses and what they are around.
pub fn meaning(n: &Node, out: &mut String) {
    if n.kind() == RSyntaxKind::R_PARENTHESIZED_EXPRESSION {
        for c in n.children() {
            meaning(&c, out);
        }
        return;
    }
    out.push_str(&format!(" ({:?}", n.kind()));
    for e in n.children_with_tokens() {
        match e {
            NodeOrToken::Node(n) => meaning(&n, out),
            NodeOrToken::Token(t) => {
                out.push(' ');
                out.push_str(t.text_trimmed());
            }
        }
    }
    out.push(')');
}
/// The tree, with the node over exactly `hole` left out.
fn shape(n: &Node, hole: (usize, usize), out: &mut String) {
    if range(n) == hole {
        out.push_str(" HOLE");
        return;
    }
    out.push_str(&format!(" ({:?}", n.kind()));
    for e in n.children_with_tokens() {
        match e {
            NodeOrToken::Node(n) => shape(&n, hole, out),
            NodeOrToken::Token(t) => {
                out.push(' ');
                out.push_str(t.text_trimmed());
            }
        }
    }
    out.push(')');
}
/// Rule, violation, the alternative with and without parentheses around its
/// parts, and the context.
fn case() -> (&'static str, String, String, String, &'static str) {
    let (rule, bad, good) = CASES[choose(CASES.len())];
    // All pieces of code in a few contexts, one of them in all, or all in all.
    let mode = param(0);
    let (first, second) = (bad.contains(['@', '$']), bad.contains('§'));
    let n = if bad.contains('@') { ARGS.len() } else if first { 5 } else { 1 };
    let k = if mode == 1 || mode == 3 { choose(n.min(if mode == 1 { 2 } else { 1 })) } else { choose(n + if second { LOOSE.len() - 1 } else { 0 }) };
    let few = ["@", "y <- @", "f(a = @, 2)", "-@", "a && @", "@ |> f()", "{\n  @\n}"];
    let context = if mode == 0 { few[choose(few.len())] } else { CONTEXTS[choose(CONTEXTS.len())] };
    // The code has any one-letter name in it.
    let name = if mode == 2 { 'x' } else { byte(b'g', b'p') as char };
    let (a, b) = if k < n { (ARGS[k], LOOSE[0]) } else { (ARGS[0], LOOSE[k - n + 1]) };
    // Comparisons don't bind that loosely.
    assume(!(rule == "comparison_negation" || rule == "length_test") || k < n + 2);
    let a = &a.replace('a', &name.to_string());
    let plain = |s: &str| s.replace(['@', '$'], a).replace('§', b);
    let exact = format!("({})", good.replace(['@', '$'], &format!("({a})")).replace('§', &format!("({b})")));
    (rule, plain(bad), if good.is_empty() { String::new() } else { exact }, plain(good), context)
}
pub fn config_of(rule: &str) -> Config {
    let mut a = args(rule);
    a.min_r_version = Some("4.6.0".into());
    build_config(&a, None, vec![]).unwrap()
}
fn rules() {
    let (rule, bad, good, _, context) = case();
    // Comparisons can't be compared.
    assume(!(bad.contains("== 1") || ["equals_na", "equals_nan", "equals_null", "redundant_equals", "string_boundary"].contains(&rule)) || !["@ == 1", "1 == @"].contains(&context));
    // Assignments with `=` are arguments there.
    assume(rule != "assignment" || !["f(@)", "x[@]", "x[[1, @]]", "a |> f(@)"].contains(&context));
    // Left alone on purpose.
    assume(rule != "outer_negation" && !bad.starts_with("!all.equal") || context != "!@");
    let at = 2 + context.find('@').unwrap();
    let text = format!("1\n{}\n", context.replace('@', &bad));
    let span = (at, at + bad.len());
    let Some(old) = root(&text) else {
        assume(false);
        return;
    };
    let mut s = String::new();
    shape(&old, span, &mut s);
    let whole = s.contains(" HOLE");
    let c = config_of(rule);
    let Some(d) = lint(&text, "a.R", &c) else {
        check(false, "code_that_parses_is_linted");
        return;
    };
    note(|| format!("{rule} {text:?} whole {whole} {d:?}"));
    check(d.iter().all(|d| d.message.name == rule), "only_the_rule_reports");
    if whole {
        check(d.len() == 1, "documented_code_is_reported_once_wherever_it_stands");
        reach("reported");
    }
    for d in &d {
        let (a, b) = (u32::from(d.range.start()) as usize, u32::from(d.range.end()) as usize);
        check(!whole || a >= span.0 && b <= span.1, "what_is_reported_is_the_documented_code");
        let f = &d.fix;
        if f.to_skip || f.content.is_empty() {
            continue;
        }
        reach("fix");
        let new = format!("{}{}{}", &text[..f.start], f.content, &text[f.end..]);
        note(|| format!("{new:?}"));
        let Some(tree) = root(&new) else {
            check(false, "fixed_code_parses");
            continue;
        };
        let (mut o, mut n) = (String::new(), String::new());
        let pad = f.content.len() - f.content.trim_start().len();
        shape(&old, (f.start, f.end), &mut o);
        shape(&tree, (f.start + pad, f.start + f.content.trim_end().len()), &mut n);
        check(o == n, "a_fix_leaves_the_structure_around_it_alone");
        if whole {
            let (mut want, mut got) = (String::new(), String::new());
            meaning(&root(&format!("1\n{}\n", context.replace('@', &good))).unwrap(), &mut want);
            meaning(&tree, &mut got);
            check(want == got, "fixed_code_means_the_documented_alternative");
        }
    }
    if whole && !good.is_empty() {
        check(d.iter().all(|d| !d.fix.to_skip), "documented_code_is_fixed");
    }
}
/// The alternatives are not reported.
fn alternatives() {
    let (rule, _, _, good, context) = case();
    assume(!good.is_empty());
    assume(rule != "assignment" || context != "@ -> z");
    let text = format!("1\n{}\n", context.replace('@', &good));
    let c = config_of(rule);
    let Some(d) = lint(&text, "a.R", &c) else {
        assume(false);
        return;
    };
    note(|| format!("{rule} {text:?} {d:?}"));
    check(d.is_empty(), "the_documented_alternative_is_not_reported");
    reach("alternative");
}
pub fn run(i: u32) {
    match i {
        40 => rules(),
        41 => alternatives(),
        _ => {}
    }
}
