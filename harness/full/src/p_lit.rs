//! What rules make of strings, numbers and names.
use crate::p_rule::{CASES, config_of};
use crate::rt::*;
use crate::*;
fn of(rule: &str, text: &str) -> Option<Vec<Diagnostic>> {
    let c = config_of(rule);
    let d = lint(text, "a.R", &c);
    note(|| format!("{rule} {text:?} {d:?}"));
    if d.is_none() {
        check(p_parse(text).is_none(), "code_that_parses_is_linted");
        assume(false);
    }
    d
}
fn p_parse(s: &str) -> Option<crate::p_rule::Node> {
    crate::p_rule::root(s)
}
/// The fix of the only diagnostic, applied.
fn fixed(text: &str, d: &Diagnostic) -> Option<String> {
    let f = &d.fix;
    if f.to_skip || f.content.is_empty() { None } else { Some(format!("{}{}{}", &text[..f.start], f.content, &text[f.end..])) }
}

// sprintf ---------------------------------------------------------------
#[derive(PartialEq)]
enum Spec {
    Percent,
    /// Argument numbers of the value and of `*`, 0 for the next.
    Valid(usize, Option<usize>),
    Invalid,
    /// R may or may not accept it.
    Unclear,
}
const TYPES: &[u8] = b"diosfeEgGxXaA";
/// `s` is behind the `%`.
fn spec(s: &[u8]) -> (Spec, usize) {
    let at = |i: usize| s.get(i).copied().unwrap_or(0);
    if at(0) == b'%' {
        return (Spec::Percent, 1);
    }
    if !s.iter().any(|b| TYPES.contains(b)) {
        return (Spec::Invalid, s.len());
    }
    let mut i = 0;
    while b" +-#0123456789.*$".contains(&at(i)) && i < s.len() {
        i += 1;
    }
    if !TYPES.contains(&at(i)) {
        return (if at(i) == b'%' { Spec::Unclear } else { Spec::Invalid }, s.len());
    }
    let end = i + 1;
    i = 0;
    let numbered = |i: &mut usize| {
        if at(*i).is_ascii_digit() && at(*i) != b'0' && at(*i + 1) == b'$' {
            *i += 2;
            (at(*i - 2) - b'0') as usize
        } else {
            0
        }
    };
    let value = numbered(&mut i);
    let mut star = None;
    while b" +-#0".contains(&at(i)) && i < end {
        i += 1;
    }
    if at(i) == b'*' {
        i += 1;
        star = Some(numbered(&mut i));
    } else {
        while at(i).is_ascii_digit() {
            i += 1;
        }
    }
    if at(i) == b'.' {
        i += 1;
        if at(i) == b'*' {
            i += 1;
            if star.is_some() {
                return (Spec::Unclear, end);
            }
            star = Some(numbered(&mut i));
        } else {
            while at(i).is_ascii_digit() {
                i += 1;
            }
        }
    }
    (if i + 1 == end { Spec::Valid(value, star) } else { Spec::Unclear }, end)
}
const SPRINTF_ARGS: [(&str, usize, bool); 9] = [
    ("\"#\"", 0, false),
    ("\"#\", u", 1, false),
    ("\"#\", u, v", 2, false),
    ("u, fmt = \"#\"", 1, false),
    ("\"#\", w = u", 1, false),
    ("\"#\", ...", 0, true),
    ("fmt = \"#\", u, w = v", 2, false),
    ("'#', u, ...", 1, true),
    ("\"#\", u, v, 3", 3, false),
];
fn sprintf() {
    let n = param(0);
    let (args, count, dots) = SPRINTF_ARGS[choose(SPRINTF_ARGS.len())];
    let fmt = match param(1) {
        0 => text(b"%sd12$*.-0 y", n),
        2 => format!("%{}", text(b"#+ -0d.1sx", n)),
        _ => format!("{}{}", ["%1$s", "%s", "%%", "a", "%-5.2f"][choose(5)], text(b"%sd12$*.-0 y", n)),
    };
    let src = format!("y <- sprintf({})\n", args.replace('#', &fmt));
    let Some(d) = of("sprintf", &src) else { return };
    // What R does.
    let b = fmt.as_bytes();
    let (mut i, mut specs, mut constant) = (0, vec![], String::new());
    while i < b.len() {
        i += 1;
        if b[i - 1] != b'%' {
            constant.push(b[i - 1] as char);
            continue;
        }
        let (s, len) = spec(&b[i..]);
        i += len;
        if s == Spec::Percent {
            constant.push('%');
        }
        specs.push(s);
    }
    assume(!specs.contains(&Spec::Unclear));
    let said = |s: &str| d.len() == 1 && d[0].message.body.contains(s);
    if specs.contains(&Spec::Invalid) {
        check(said("invalid"), "invalid_formats_are_reported");
        check(d.iter().all(|d| fixed(&src, d).is_none()), "invalid_formats_are_not_fixed");
        reach("invalid");
        return;
    }
    check(!said("invalid"), "valid_formats_are_not_reported_as_invalid");
    let values: Vec<_> = specs.iter().filter_map(|s| if let Spec::Valid(a, b) = s { Some((*a, *b)) } else { None }).collect();
    if values.is_empty() {
        check(said("useless"), "formats_without_conversions_are_reported");
        let f = fixed(&src, &d[0]);
        check(f.is_none() || count == 0 && !dots && f == Some(format!("y <- \"{constant}\"\n")), "the_fix_is_the_string_itself");
        check(count > 0 || dots || f.is_some(), "formats_without_conversions_are_fixed");
        reach("constant");
        return;
    }
    check(!said("useless"), "formats_with_conversions_are_not_useless");
    let refs: Vec<usize> = values.iter().flat_map(|(a, b)| std::iter::once(*a).chain(*b)).collect();
    if refs.iter().all(|r| *r == 0) {
        check(d.is_empty() || count != refs.len() && (!dots || count > refs.len()), "enough_arguments_are_not_reported");
        check(!d.is_empty() || dots || count == refs.len(), "too_few_or_too_many_arguments_are_reported");
        reach("counted");
    } else if !refs.contains(&0) {
        let max = *refs.iter().max().unwrap();
        check(d.is_empty() || count != max && (!dots || count > max), "enough_arguments_are_not_reported");
        // Unused ones in between only make R warn.
        check(!d.is_empty() || dots || count == max, "too_few_or_too_many_arguments_are_reported");
        reach("numbered");
    }
}

// fixed_regex -----------------------------------------------------------
fn fixed_regex() {
    let f = ["grep", "grepl", "regexpr", "gregexpr", "regexec", "sub", "gsub"][choose(7)];
    let subst = f.ends_with("sub");
    let q = ["\"", "'"][choose(2)];
    let n = choose(param(0) + 1);
    let pattern = text(b".*+?[{()|^$\\a]}-<'\"", n);
    assume(!pattern.contains(q));
    // Further arguments; whether the fix makes sense, if they are kept.
    let (more, ok) = [
        ("", Some(true)),
        (", ignore.case = FALSE", Some(true)),
        (", ignore.case = TRUE", Some(false)),
        (", ignore.case = T", Some(false)),
        (", ignore.case = ic", Some(false)),
        (", TRUE", Some(false)),
        (", FALSE", Some(true)),
        (", ic", Some(false)),
        (", fixed = FALSE", Some(true)),
        (", fixed = TRUE", Some(false)),
        (", fixed = T", Some(false)),
        (", fixed = fx", Some(false)),
        (", perl = TRUE", None),
        (", useBytes = TRUE", Some(true)),
        (", ...", None),
    ][choose(15)];
    let by = if subst { ["\"b\"", "'b c'", "\"\\\\1\"", "\"\\\\U\\\\1\"", "\"\"", "r\"(\\1)\""][choose(6)] } else { "" };
    let named = flag();
    let call = match (subst, named) {
        (true, false) => format!("{f}({q}{pattern}{q}, {by}, x{more})"),
        (true, true) => format!("{f}(replacement = {by}, pattern = {q}{pattern}{q}, x = x{more})"),
        (false, false) => format!("{f}({q}{pattern}{q}, x{more})"),
        (false, true) => format!("{f}(x, pattern = {q}{pattern}{q}{more})"),
    };
    let src = format!("y <- {call}\n");
    assume(!pattern.contains('\\') || p_parse(&src).is_some());
    let Some(d) = of("fixed_regex", &src) else { return };
    let special = pattern.bytes().any(|b| b".*+?[{()|^$\\".contains(&b));
    let Some(ok) = ok else {
        check(!special || d.is_empty(), "patterns_with_special_characters_are_not_reported");
        return;
    };
    check(d.is_empty() || !special && ok, "what_cant_be_fixed_strings_is_not_reported");
    let plain = !by.contains('\\') && !(subst && pattern.is_empty());
    check(d.len() == 1 || special || !ok || !plain, "patterns_without_special_characters_are_reported");
    for d in &d {
        let new = fixed(&src, d);
        let (kept, _) = call.rsplit_once(')').unwrap();
        let kept = kept.replace(", fixed = FALSE", "");
        check(new.is_none() || plain && new == Some(format!("y <- {kept}, fixed = TRUE)\n")), "a_fix_keeps_what_is_matched_and_inserted");
        check(new.is_some() || !plain, "patterns_without_special_characters_are_fixed");
        reach("fixed");
    }
    reach(if special { "special" } else { "plain" });
}

// Numbers ---------------------------------------------------------------
/// Digits without the point, the power of ten (or sixteen) they are times, and
/// whether it is a hexadecimal number.
fn number(s: &[u8]) -> Option<(u64, i64, bool)> {
    let mut s = s;
    let long = s.last() == Some(&b'L');
    if long {
        s = &s[..s.len() - 1];
    }
    if s.len() >= 2 && s[0] == b'0' && s[1] == b'x' {
        let mut m = 0;
        for b in &s[2..] {
            m = m * 16 + (*b as char).to_digit(16)? as u64;
        }
        return if s.len() > 2 { Some((m, 0, true)) } else { None };
    }
    let (mut m, mut scale, mut digits, mut point, mut i) = (0, 0, 0, false, 0);
    while i < s.len() && s[i] != b'e' {
        if s[i] == b'.' {
            if point {
                return None;
            }
            point = true;
        } else if s[i].is_ascii_digit() {
            m = m * 10 + (s[i] - b'0') as u64;
            digits += 1;
            scale -= point as i64;
        } else {
            return None;
        }
        i += 1;
    }
    if digits == 0 {
        return None;
    }
    if i < s.len() {
        i += 1;
        let neg = i < s.len() && s[i] == b'-';
        i += neg as usize;
        if i == s.len() {
            return None;
        }
        let mut e = 0;
        while i < s.len() {
            if !s[i].is_ascii_digit() {
                return None;
            }
            e = e * 10 + (s[i] - b'0') as i64;
            i += 1;
        }
        scale += if neg { -e } else { e };
    }
    while m != 0 && m % 10 == 0 {
        m /= 10;
        scale += 1;
    }
    // R makes these doubles.
    if long && (scale < 0 || point) {
        return None;
    }
    Some((m, if m == 0 { 0 } else { scale }, false))
}
fn numbers() {
    let lit = text(b"012.Lex-", choose(param(0)) + 1);
    let Some((m, scale, hex)) = number(lit.as_bytes()) else {
        assume(false);
        return;
    };
    let is = |v: u64| m == v && scale == 0;
    let canon = |v: u64| lit == v.to_string() || lit == format!("{v}L");
    let _ = hex;
    match choose(9) {
        0 => {
            let cond = ["#", "(#)", "-#", "# || z", "z || #", "(# && TRUE)", "+(#)"][choose(7)];
            let Some(d) = of("if_always_true", &format!("if ({}) 1\n", cond.replace('#', &lit))) else { return };
            check(d.len() == (m != 0) as usize, "numbers_are_true_unless_they_are_zero");
            reach("condition");
        }
        1 => {
            let cond = ["!#", "!(#)", "!# || z", "!(# && z)", "!-#"][choose(5)];
            let Some(d) = of("if_always_true", &format!("if ({}) 1\n", cond.replace('#', &lit))) else { return };
            check(d.len() == (m == 0) as usize, "numbers_are_true_unless_they_are_zero");
            reach("condition");
        }
        2 => {
            let src = format!("y <- {lit}:{}(x)\n", ["length", "nrow", "NROW"][choose(3)]);
            let Some(d) = of("seq", &src) else { return };
            check(d.is_empty() || is(1), "only_sequences_from_one_are_reported");
            check(d.len() == 1 || !canon(1), "sequences_from_one_are_reported");
            reach("seq");
        }
        3 => {
            let Some(d) = of("sample_int", &format!("y <- sample({lit}:n, 2)\n")) else { return };
            check(d.is_empty() || is(1), "only_sequences_from_one_are_reported");
            check(d.len() == 1 || !canon(1), "sequences_from_one_are_reported");
            reach("sample");
        }
        4 => {
            let src = format!("y <- apply(x, {lit}, sum)\n");
            let Some(d) = of("matrix_apply", &src) else { return };
            check(d.is_empty() || is(1) || is(2), "only_rows_and_columns_are_reported");
            check(d.len() == 1 || !canon(1) && !canon(2), "rows_and_columns_are_reported");
            for d in &d {
                check(fixed(&src, d) == Some(format!("y <- {}Sums(x)\n", if is(1) { "row" } else { "col" })), "rows_and_columns_are_told_apart");
            }
            reach("apply");
        }
        5 => {
            let src = format!("y <- substr(x, {lit}, n) == \"a\"\n");
            let Some(d) = of("string_boundary", &src) else { return };
            check(d.is_empty() || is(1), "only_sequences_from_one_are_reported");
            check(d.len() == 1 || !canon(1), "sequences_from_one_are_reported");
            reach("substr");
        }
        6 => {
            let src = format!("y <- f({lit}, -{lit})\n");
            let Some(d) = of("numeric_leading_zero", &src) else { return };
            let dot = lit.starts_with('.');
            check(d.len() == if dot { 2 } else { 0 }, "numbers_that_start_with_a_point_are_reported");
            for d in &d {
                let f = fixed(&src, d);
                check(f == Some(format!("y <- f(0{lit}, -{lit})\n")) || f == Some(format!("y <- f({lit}, -0{lit})\n")), "the_value_stays");
            }
            reach("zero");
        }
        7 => {
            let src = format!("expect_equal(length(x), {lit})\n");
            let Some(d) = of("expect_length", &src) else { return };
            check(d.len() == 1 && fixed(&src, &d[0]) == Some(format!("expect_length(x, {lit})\n")), "the_value_stays");
            reach("length");
        }
        _ => {
            let src = format!("y <- list({lit}, a[{lit}], {lit} == x)\n");
            let c = config("ALL");
            let d = lint(&src, "a.R", &c);
            note(|| format!("{src:?} {d:?}"));
            check(d.is_some(), "code_that_parses_is_linted");
            reach("all");
        }
    }
}

// Names -----------------------------------------------------------------
/// A name and how it is written.
fn name(strings: bool) -> (String, String) {
    let k = choose(if strings { 4 } else { 2 });
    if k == 0 {
        let mut n = text(b"abTF", 1);
        if flag() {
            n.push_str(&text(b"ab._TF", 1));
        }
        (n.clone(), n)
    } else {
        let n = text(b"aT'\"` ", choose(2) + 1);
        let q = ['`', '"', '\''][k - 1];
        assume(!n.contains(q));
        (n.clone(), format!("{q}{n}{q}"))
    }
}
fn names() {
    let place = choose(11);
    let strings = place < 3;
    let ((n1, s1), (n2, s2)) = (name(strings), name(strings));
    let same = n1 == n2;
    let (rule, src) = match place {
        0 => ("duplicated_arguments", format!("f({s1} = 1, {s2} = 2)\n")),
        1 => ("duplicated_arguments", format!("f({s1} = 1, x, {s2} = f(z = 1), z = 3)\n")),
        2 => ("duplicated_arguments", format!("x$f({s1} =, {s2} =)\n")),
        3 => ("for_loop_dup_index", format!("for ({s1} in 1:3) {{\n  for ({s2} in u) 1\n}}\n")),
        4 => ("for_loop_dup_index", format!("for ({s1} in 1:3) for (k in 1) if (u) for ({s2} in u) 1\n")),
        5 => ("for_loop_index", format!("for ({s1} in {s2}) 1\n")),
        6 => ("for_loop_index", format!("for ({s1} in f(u, {s2})) 1\n")),
        7 => ("for_loop_index", format!("for ({s1} in u::f(g({s2} = 1))) 1\n")),
        8 => ("sort", format!("y <- {s1}[order({s2})]\n")),
        9 => ("coalesce", format!("y <- if (is.null({s1})) u else {s2}\n")),
        _ => ("string_boundary", format!("y <- substr({s1}, 3, nchar({s2})) == \"a\"\n")),
    };
    let Some(d) = of(rule, &src) else { return };
    check(d.is_empty() || same, "different_names_are_not_the_same");
    check(d.len() == 1 || s1 != s2, "the_same_name_is_reported");
    check(d.len() == 1 || place > 7 || !same, "the_same_name_is_reported_however_it_is_written");
    reach(if same { "same" } else { "different" });
}
fn truth() {
    let (n, s) = name(true);
    let value = ["y <- #", "f(#)", "f(a = #)", "# && z", "if (#) 1", "!#", "x[#]", "x[[1, #]]", "function(a = #) 1", "{\n  #\n}", "y <<- #", "z |> f(#)", "while (#) 1", "# == z", "function() #", "y = #", "# -> y", "x[#] <- 1", "f(#) <- 1", "repeat #", "(#)", "f(# = #)"];
    let object = ["# <- 1", "1 -> #", "# = 1", "# <<- 1", "1 ->> #", "f(# = 1)", "function(#) 1", "function(a, # = 1) 1", "for (# in 1) 1", "x$#", "x@#", "#()", "y ~ #", "~ #", "~ # + z", "f(y ~ z * #)", "y ~ z | f(#)", "#::f", "u::#", "#$a", "#@a", "#[1] <- 2", "#[[1]] <- 2", "x[# = 1]", "#$a <- 1", "\\(#) 1", "names(#) <- \"a\"", "#(1)", "2 -> #[1]"];
    let k = choose(value.len() + object.len());
    let tf = n == "T" || n == "F";
    let long = if n == "T" { "TRUE" } else { "FALSE" };
    let plain = s == n;
    if k < value.len() {
        let src = format!("{}\n", value[k].replace('#', &s));
        assume(p_parse(&src).is_some());
        let Some(d) = of("true_false_symbol", &src) else { return };
        check(d.is_empty() || tf, "only_true_and_false_are_reported");
        check(!tf || !plain || d.len() == 1 || value[k].contains("# =") && !d.is_empty(), "short_true_and_false_are_reported");
        let mut new = src.clone();
        for d in d.iter().rev() {
            if let Some(f) = fixed(&new, d) {
                new = f;
            }
        }
        let want = match value[k] {
            "f(# = #)" => format!("f({s} = {long})\n"),
            v => format!("{}\n", v.replace('#', long)),
        };
        check(new == src || new == want, "short_true_and_false_are_replaced");
        check(tf && plain || new == src, "other_names_stay");
        reach(if tf { "short" } else { "other" });
    } else {
        let src = format!("{}\n", object[k - value.len()].replace('#', &s));
        assume(p_parse(&src).is_some());
        let Some(d) = of("true_false_symbol", &src) else { return };
        check(d.is_empty() || tf, "only_true_and_false_are_reported");
        check(d.iter().all(|d| fixed(&src, d).is_none()), "names_of_objects_stay");
        reach("object");
    }
}
/// The functions rules are about, with one letter replaced.
fn callees() {
    let (rule, bad, _) = CASES[choose(CASES.len())];
    let bad = bad.replace(['@', '$'], "zz").replace('§', "uu");
    let b = bad.as_bytes();
    // Letters of functions' names.
    let mut at = vec![];
    for i in 0..b.len() {
        let mut j = i;
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'.' || c == b'_';
        while j < b.len() && word(b[j]) {
            j += 1;
        }
        let mut s = i;
        while s > 0 && word(b[s - 1]) {
            s -= 1;
        }
        if j > i && j < b.len() && b[j] == b'(' && b[i].is_ascii_lowercase() && bad[..s].matches('"').count() % 2 == 0 {
            // Not what the violation is about.
            if !["c", "f"].contains(&&bad[s..j]) {
                at.push(i);
            }
        }
    }
    assume(!at.is_empty() && !["duplicated_arguments", "implicit_assignment"].contains(&rule));
    let i = at[choose(at.len())];
    let mut new = bad.clone().into_bytes();
    new[i] = byte(b'a', b'z');
    assume(new[i] != b[i]);
    let new = String::from_utf8(new).unwrap();
    // One of them without or with the other's arguments.
    assume(!(rule == "lengths" && ["apply(zz, length)", "apply(zz, length, ", "vapply(FUN = length, X = zz)"].iter().any(|s| new.contains(s))));
    // Where the end of a string starts, or its start ends, doesn't matter.
    assume(!new.starts_with("substr(zz, 1, "));
    assume(!(new.starts_with("substring(zz, ") && new.ends_with(", nchar(zz)) == \"xyz\"")));
    let src = format!("1\n{new}\n");
    let Some(d) = of(rule, &src) else { return };
    check(d.is_empty(), "other_functions_are_not_reported");
    reach("other");
}
/// Callees whose repeated arguments are fine.
fn skipped() {
    let known = ["c", "mutate", "summarize", "transmute", "cli_x"];
    let mut f = ["mutate", "summarize", "transmute", "cli_x", "c", "list", "mut"][choose(7)].to_string();
    if flag() {
        let i = choose(f.len());
        unsafe { f.as_mut_vec()[i] = byte(b'a', b'z') };
    }
    let call = ["#", "u::#", "u:::#"][choose(3)].replace('#', &f);
    let Some(d) = of("duplicated_arguments", &format!("{call}(a = 1, a = 2)\n")) else { return };
    let fine = known.contains(&f.as_str()) || f.starts_with("cli_");
    check(d.len() == !fine as usize, "repeated_arguments_are_reported_unless_the_function_takes_them");
    reach(if fine { "fine" } else { "repeated" });
}
pub fn run(i: u32) {
    match i {
        50 => sprintf(),
        51 => fixed_regex(),
        52 => numbers(),
        53 => names(),
        54 => truth(),
        55 => callees(),
        56 => skipped(),
        _ => {}
    }
}
