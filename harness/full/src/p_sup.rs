//! Suppression comments: what they silence and which of them are reported.
use crate::rt::*;
use crate::*;

const A: (&str, &str) = ("any_is_na", "any(is.na(x))");
const B: (&str, &str) = ("any_duplicated", "any(duplicated(x))");
const RULES: &str = "any_is_na,any_duplicated,blanket_suppression,invalid_chunk_suppression,misnamed_suppression,misplaced_file_suppression,misplaced_suppression,outdated_suppression,unexplained_suppression,unmatched_range_suppression";

#[derive(Clone, Copy, PartialEq)]
enum K {
    /// Code with a violation of this rule.
    Code(Option<&'static str>),
    Open,
    OpenCall,
    Close,
    Node(&'static str),
    Start(&'static str),
    End(&'static str),
    File(&'static str),
    /// A comment that is reported by this rule, or by none.
    Bad(Option<&'static str>),
    /// Code with a violation of any_is_na and a directive behind it.
    Behind,
}
const ITEMS: [(&str, K); 22] = [
    ("any(is.na(x))", K::Code(Some(A.0))),
    ("# jarl-ignore any_is_na: r", K::Node(A.0)),
    ("# jarl-ignore-start any_is_na: r", K::Start(A.0)),
    ("# jarl-ignore-end any_is_na", K::End(A.0)),
    ("f <- function(x) {", K::Open),
    ("}", K::Close),
    ("# jarl-ignore-file any_is_na: r", K::File(A.0)),
    ("any(duplicated(x))", K::Code(Some(B.0))),
    // Thorough from here on.
    ("x <- 1", K::Code(None)),
    ("foo(", K::OpenCall),
    ("# jarl-ignore any_duplicated: r", K::Node(B.0)),
    ("# note", K::Bad(None)),
    ("any(is.na(x)) # jarl-ignore any_is_na: r", K::Behind),
    ("# jarl-ignore any_is_na", K::Bad(Some("unexplained_suppression"))),
    ("# jarl-ignore", K::Bad(Some("blanket_suppression"))),
    ("# jarl-ignore: r", K::Bad(Some("blanket_suppression"))),
    ("# jarl-ignore any_isna: r", K::Bad(Some("misnamed_suppression"))),
    ("# jarl-ignore-chunk any_is_na: r", K::Bad(Some("invalid_chunk_suppression"))),
    ("# jarl-ignore-start any_duplicated: r", K::Start(B.0)),
    ("# jarl-ignore-end any_duplicated", K::End(B.0)),
    ("# jarl-ignore-file any_is_na:", K::Bad(Some("unexplained_suppression"))),
    ("#| jarl-ignore any_is_na: r", K::Bad(None)),
];
struct Line {
    k: K,
    /// Index of the line that opened the block this line is in.
    block: usize,
    depth: usize,
    call: bool,
}
/// A suppression and the lines it covers.
struct Sup {
    at: usize,
    rule: &'static str,
    from: usize,
    to: usize,
}
const TOP: usize = usize::MAX;
/// The two properties: what violations are silenced, and what is said about the comments.
fn silence(mode: u32, c: bool, l: &'static str) {
    if mode == 0 {
        check(c, l);
    }
}
fn comments(mode: u32, c: bool, l: &'static str) {
    if mode == 1 {
        check(c, l);
    }
}
fn violation(r: &str) -> bool {
    r == A.0 || r == B.0
}

fn lines(items: &[usize], n: usize) -> (String, Vec<Line>) {
    let mut text = String::new();
    let mut v: Vec<Line> = Vec::new();
    let mut open: Vec<(usize, bool)> = Vec::new();
    let indent = flag();
    let mut emit = |text: &mut String, v: &mut Vec<Line>, open: &[(usize, bool)], s: &str, k: K| {
        let call = open.last().is_some_and(|o| o.1);
        if indent {
            for _ in 0..open.len() {
                text.push_str("  ");
            }
        }
        text.push_str(s);
        if call && matches!(k, K::Code(_) | K::Close) {
            // Between arguments.
            text.push(',');
        }
        text.push('\n');
        v.push(Line { k, block: open.last().map_or(TOP, |o| o.0), depth: open.iter().filter(|o| !o.1).count(), call });
    };
    for _ in 0..n {
        let (s, k) = ITEMS[items[choose(items.len())]];
        match k {
            K::Open | K::OpenCall => {
                // Only a bare block as an argument.
                assume(!(open.last().is_some_and(|o| o.1) && k == K::Open));
                emit(&mut text, &mut v, &open, s, k);
                open.push((v.len() - 1, k == K::OpenCall));
            }
            K::Close => {
                assume(!open.is_empty());
                let o = open.pop().unwrap();
                emit(&mut text, &mut v, &open, if o.1 { "z)" } else { s }, k);
            }
            K::Behind | K::Start(_) | K::End(_) => {
                assume(!open.last().is_some_and(|o| o.1));
                emit(&mut text, &mut v, &open, s, k);
            }
            _ => emit(&mut text, &mut v, &open, s, k),
        }
    }
    while let Some(o) = open.pop() {
        emit(&mut text, &mut v, &open, if o.1 { "z)" } else { "}" }, K::Close);
    }
    if flag() {
        text.pop();
    }
    (text, v)
}
fn code(k: K) -> bool {
    matches!(k, K::Code(_) | K::Open | K::OpenCall | K::Behind)
}
/// What the lines say about their suppressions: the effective ones, and the
/// reports (line, rule).
fn oracle(v: &[Line]) -> (Vec<Sup>, Vec<(usize, &'static str)>) {
    let mut sup = Vec::new();
    let mut rep = Vec::new();
    let mut starts: Vec<(usize, &'static str, usize, usize)> = Vec::new();
    for (i, l) in v.iter().enumerate() {
        match l.k {
            K::Node(rule) => {
                // The next code in the same block, as a whole.
                let j = (i + 1..v.len()).find(|j| code(v[*j].k) || v[*j].k == K::Close);
                let mut s = Sup { at: i, rule, from: i, to: i };
                if let Some(j) = j
                    && code(v[j].k)
                {
                    s.from = j;
                    s.to = if matches!(v[j].k, K::Open | K::OpenCall) { (j + 1..v.len()).find(|k| v[*k].k == K::Close && v[*k].block == l.block).unwrap() } else { j };
                } else if l.call {
                    // In front of the last argument.
                } else if i > 0 && matches!(v[i - 1].k, K::Open) || v.iter().filter(|x| x.block == l.block).all(|x| !code(x.k)) {
                    // In an empty block: not judged.
                    assume(false);
                }
                sup.push(s);
            }
            K::Start(rule) => starts.push((i, rule, l.block, l.depth)),
            K::End(rule) => {
                let by_level = starts.iter().rposition(|s| s.1 == rule && s.3 == l.depth);
                let by_block = starts.iter().rposition(|s| s.1 == rule && s.2 == l.block);
                // Different blocks at the same level: not judged.
                assume(by_level == by_block);
                match by_block {
                    Some(p) => {
                        let s = starts.remove(p);
                        sup.push(Sup { at: s.0, rule, from: s.0, to: i });
                    }
                    None => rep.push((i, "unmatched_range_suppression")),
                }
            }
            K::File(rule) => {
                if v[..i].iter().any(|l| code(l.k)) {
                    rep.push((i, "misplaced_file_suppression"));
                } else {
                    sup.push(Sup { at: i, rule, from: 0, to: v.len() });
                }
            }
            K::Bad(Some(r)) => rep.push((i, r)),
            K::Behind => rep.push((i, "misplaced_suppression")),
            _ => {}
        }
    }
    for s in starts {
        rep.push((s.0, "unmatched_range_suppression"));
    }
    (sup, rep)
}
fn judge(mode: u32, v: &[Line], got: &[(usize, &str)]) {
    let (sup, rep) = oracle(v);
    let has = |i: usize, r: &str| got.iter().filter(|g| g.0 == i && g.1 == r).count();
    let (mut shown, mut expected) = (0, 0);
    for (i, l) in v.iter().enumerate() {
        let rule = match l.k {
            K::Code(Some(r)) => r,
            K::Behind => A.0,
            _ => continue,
        };
        let covered = sup.iter().any(|s| s.rule == rule && s.from <= i && i <= s.to);
        if covered {
            silence(mode, has(i, rule) == 0, "a_suppressed_violation_is_silent");
            reach("suppressed");
        } else {
            silence(mode, has(i, rule) == 1, "a_violation_no_comment_covers_is_reported");
            shown += 1;
            reach("reported");
        }
    }
    for (i, r) in &rep {
        comments(mode, has(*i, r) == 1, "a_wrong_suppression_comment_is_reported");
        expected += 1;
        reach("wrong");
    }
    for s in &sup {
        let hits: Vec<usize> = (0..v.len()).filter(|i| (v[*i].k == K::Code(Some(s.rule)) || v[*i].k == K::Behind && s.rule == A.0) && s.from <= *i && *i <= s.to).collect();
        let sole = hits.iter().any(|i| !sup.iter().any(|o| o.at != s.at && o.rule == s.rule && o.from <= *i && *i <= o.to));
        let n = has(s.at, "outdated_suppression");
        if hits.is_empty() {
            comments(mode, n == 1, "a_suppression_without_violation_is_reported_as_outdated");
            reach("outdated");
        } else if sole {
            comments(mode, n == 0, "a_suppression_in_use_is_not_reported_as_outdated");
        }
        expected += n;
    }
    silence(mode, got.iter().filter(|g| violation(g.1)).count() == shown, "no_other_violation_is_reported");
    comments(mode, got.iter().filter(|g| !violation(g.1)).count() == expected, "no_other_comment_is_reported");
}
fn semantics() {
    let c = config(RULES);
    let items: Vec<usize> = match param(1) {
        0 => (0..8).collect(),
        1 => vec![0, 4, 5, 1, 2, 12, 13, 14, 15, 16, 17, 20, 21],
        2 => vec![0, 1, 10, 7, 9, 4, 5, 6, 11],
        _ => (0..22).collect(),
    };
    let (text, v) = lines(&items, param(0));
    assume(v.iter().any(|l| code(l.k)));
    let Some(d) = lint(&text, "a.R", &c) else {
        check(false, "the_file_is_linted");
        return;
    };
    let got: Vec<(usize, &str)> = d.iter().map(|d| (text.as_bytes()[..u32::from(d.range.start()) as usize].iter().filter(|c| **c == b'\n').count(), d.message.name.as_str())).collect();
    judge(param(2) as u32, &v, &got);
}
/// An R chunk: its lines, and what each of them is. Array items are `Node`s.
type Chunk = &'static [(&'static str, K)];
const CHUNKS: [Chunk; 16] = [
    &[("any(is.na(x))", K::Code(Some(A.0)))],
    &[("#| jarl-ignore-chunk:", K::Bad(None)), ("#|   - any_is_na: r", K::Node(A.0)), ("x <- 1", K::Code(None)), ("any(is.na(x))", K::Code(Some(A.0)))],
    &[("#| echo: false", K::Bad(None)), ("#| jarl-ignore-chunk:", K::Bad(None)), ("#| - any_is_na: r", K::Node(A.0)), ("#|   - any_duplicated: s", K::Node(B.0)), ("any(duplicated(x))", K::Code(Some(B.0)))],
    &[("# note", K::Bad(None)), ("# jarl-ignore-file any_is_na: r", K::File(A.0)), ("x <- 1", K::Code(None))],
    &[("x <- 1", K::Code(None)), ("# jarl-ignore-file any_is_na: r", K::File(A.0)), ("any(is.na(x))", K::Code(Some(A.0)))],
    &[("# jarl-ignore-file any_duplicated: r", K::File(B.0)), ("any(duplicated(x))", K::Code(Some(B.0)))],
    &[("any(duplicated(x))", K::Code(Some(B.0))), ("#| jarl-ignore-chunk:", K::Bad(None)), ("#|   - any_duplicated: r", K::Node(B.0)), ("any(is.na(x))", K::Code(Some(A.0))), ("any(duplicated(x))", K::Code(Some(B.0)))],
    &[("#| jarl-ignore-chunk any_is_na: r", K::Bad(Some("invalid_chunk_suppression"))), ("any(is.na(x))", K::Code(Some(A.0)))],
    &[("#| jarl-ignore-chunk:", K::Bad(Some("blanket_suppression"))), ("any(is.na(x))", K::Code(Some(A.0)))],
    &[("#| jarl-ignore-chunk:", K::Bad(None)), ("#|   - any_is_na:", K::Bad(Some("unexplained_suppression"))), ("#|   - any_isna: r", K::Bad(Some("misnamed_suppression"))), ("#|   - any_is_na: r", K::Node(A.0)), ("any(is.na(x))", K::Code(Some(A.0)))],
    &[("x <-", K::Close)],
    &[("# jarl-ignore any_is_na: r", K::Open), ("any(is.na(x))", K::Code(Some(A.0))), ("any(is.na(y))", K::Code(Some(A.0)))],
    &[("# jarl-ignore-file any_is_na: r", K::File(A.0)), ("# jarl-ignore-file any_duplicated: r", K::File(B.0)), ("x <- 1", K::Code(None))],
    &[("#| jarl-ignore-chunk:", K::Bad(None)), ("#|   - any_isna: r", K::Bad(Some("misnamed_suppression"))), ("#|   - any_is_na: ", K::Bad(Some("unexplained_suppression"))), ("#|   - any_duplicated: r", K::Node(B.0)), ("x <- 1", K::Code(None))],
    &[("#| jarl-ignore-chunk:", K::Bad(None)), ("#|   - any_is_na: r", K::Node(A.0)), ("#| echo: false", K::Bad(None)), ("#|   - any_duplicated: r", K::Bad(None)), ("any(duplicated(x))", K::Code(Some(B.0))), ("any(is.na(x))", K::Code(Some(A.0)))],
    &[("# jarl-ignore-start any_is_na: r", K::Bad(Some("unmatched_range_suppression"))), ("any(is.na(x))", K::Code(Some(A.0)))],
];
fn rmd() {
    let c = config(RULES);
    let (n, mode) = (param(0), param(1) as u32);
    let between = ["", "text any(is.na(x))\n\n", "```{python}\nany(is.na(x))\n```\n"][choose(3)];
    let mut text = String::new();
    let mut row = 0;
    // Violations (row, rule, silenced within the chunk), suppressions
    // (row, rule, chunk or none for the file), reports.
    let mut viol: Vec<(usize, &str, usize, bool)> = Vec::new();
    let mut sup: Vec<(usize, &str, Option<usize>)> = Vec::new();
    let mut rep: Vec<(usize, &str)> = Vec::new();
    for i in 0..n {
        let k = CHUNKS[choose(CHUNKS.len())];
        text.push_str(between);
        text.push_str("```{r}\n");
        row += between.matches('\n').count() + 1;
        let broken = k[0].1 == K::Close;
        let mut node = false;
        let mut code_seen = false;
        for (s, x) in k {
            text.push_str(s);
            text.push('\n');
            match *x {
                K::Code(r) => {
                    code_seen = true;
                    if let Some(r) = r {
                        viol.push((row, r, i, node));
                    }
                    node = false;
                }
                K::Open => node = true,
                K::Node(r) => sup.push((row, r, Some(i))),
                K::File(_) if i > 0 || code_seen => rep.push((row, "misplaced_file_suppression")),
                K::File(r) => sup.push((row, r, None)),
                K::Bad(Some(r)) => rep.push((row, r)),
                _ => {}
            }
            row += 1;
        }
        text.push_str("```\n");
        row += 1;
    }
    let Some(d) = lint(&text, "a.Rmd", &c) else {
        check(false, "the_file_is_linted");
        return;
    };
    let got: Vec<(usize, &str)> = d.iter().map(|d| (text.as_bytes()[..u32::from(d.range.start()) as usize].iter().filter(|c| **c == b'\n').count(), d.message.name.as_str())).collect();
    let has = |i: usize, r: &str| got.iter().filter(|g| g.0 == i && g.1 == r).count();
    let (mut shown, mut expected) = (0, 0);
    for v in &viol {
        let by = sup.iter().filter(|s| s.1 == v.1 && (s.2.is_none() || s.2 == Some(v.2))).count();
        if by > 0 || v.3 {
            silence(mode, has(v.0, v.1) == 0, "a_suppressed_violation_is_silent");
            reach("suppressed");
        } else {
            silence(mode, has(v.0, v.1) == 1, "a_violation_no_comment_covers_is_reported");
            shown += 1;
            reach("reported");
        }
    }
    for (i, r) in &rep {
        comments(mode, has(*i, r) == 1, "a_wrong_suppression_comment_is_reported");
        expected += 1;
        reach("wrong");
    }
    for s in &sup {
        let hits: Vec<_> = viol.iter().filter(|v| v.1 == s.1 && (s.2.is_none() || s.2 == Some(v.2))).collect();
        let sole = hits.iter().any(|v| !v.3 && !sup.iter().any(|o| o.0 != s.0 && o.1 == v.1 && (o.2.is_none() || o.2 == Some(v.2))));
        let n = has(s.0, "outdated_suppression");
        if hits.is_empty() {
            comments(mode, n == 1, "a_suppression_without_violation_is_reported_as_outdated");
            reach("outdated");
        } else if sole {
            comments(mode, n == 0, "a_suppression_in_use_is_not_reported_as_outdated");
        }
        expected += n;
    }
    // The comment above a statement may be left over, when something else covers it.
    let spare = got.iter().filter(|g| g.1 == "outdated_suppression" && !sup.iter().any(|s| s.0 == g.0)).count();
    silence(mode, got.iter().filter(|g| violation(g.1)).count() == shown, "no_other_violation_is_reported");
    comments(mode, got.iter().filter(|g| !violation(g.1)).count() == expected + spare, "no_other_comment_is_reported");
    comments(mode, spare == 0 || sup.iter().any(|s| s.2.is_none()), "a_suppression_in_use_is_not_reported_as_outdated");
}
/// Comments around and within a violation over four lines.
fn split() {
    const C: [(&str, K); 8] = [
        ("", K::Bad(None)),
        ("# note", K::Bad(None)),
        ("# jarl-ignore-start any_is_na: r", K::Start(A.0)),
        ("# jarl-ignore-end any_is_na", K::End(A.0)),
        ("# jarl-ignore-start any_duplicated: r", K::Start(B.0)),
        ("# jarl-ignore-end any_duplicated", K::End(B.0)),
        ("# jarl-ignore any_is_na: r", K::Node(A.0)),
        ("# jarl-ignore any_duplicated: r", K::Node(B.0)),
    ];
    let lines = [["any(", "  is.na(", "    x", "  )", ")"], ["any(is.na(", "x$", "y", ")", ")"], ["f(", "1,", "any(is.na(x))", ",", "2)"]][choose(3)];
    let first = if lines[0] == "f(" { 2 } else { 0 };
    let mut text = String::from("y\n");
    let mut row = 1;
    // What there is before, within and behind it.
    let mut put: Vec<(usize, usize, K)> = vec![];
    let (mut start, mut end) = (0, 0);
    let places = [choose(lines.len() + 1), choose(lines.len() + 1)];
    let what = [choose(C.len()), choose(C.len())];
    assume(places[0] <= places[1]);
    for i in 0..=lines.len() {
        for k in 0..2 {
            if places[k] == i && what[k] > 0 {
                text.push_str(C[what[k]].0);
                text.push('\n');
                put.push((row, i, C[what[k]].1));
                row += 1;
            }
        }
        if i < lines.len() {
            if i == first {
                start = row;
            }
            text.push_str(lines[i]);
            text.push('\n');
            end = row;
            row += 1;
        }
    }
    text.push_str("z\n");
    let last = if first == 2 { start } else { end };
    let Some(d) = lint(&text, "a.R", &config(RULES)) else {
        assume(false);
        return;
    };
    note(|| format!("{text:?} {d:?}"));
    let got: Vec<(usize, &str)> = d.iter().map(|d| (text.as_bytes()[..u32::from(d.range.start()) as usize].iter().filter(|c| **c == b'\n').count(), d.message.name.as_str())).collect();
    let is = |k: K| put.iter().find(|p| p.2 == k).map(|p| p.0);
    // In which the region may be.
    let region = match (is(K::Start(A.0)), is(K::End(A.0))) {
        (Some(a), Some(b)) if a < b => Some((a, b)),
        _ => None,
    };
    let within = |p: usize| p > 0 && p < lines.len();
    let reported = got.contains(&(start, A.0));
    if let Some((a, b)) = region {
        if a < start && last < b {
            // Whether comments within and outside of a call belong together isn't judged.
            if !put.iter().any(|p| within(p.1)) {
                reach("suppressed");
                check(!reported, "a_suppressed_violation_is_silent");
            }
        } else if is(K::Node(A.0)).is_none() {
            reach("reported");
            check(reported, "a_violation_no_comment_covers_is_reported");
        }
    } else if is(K::Node(A.0)).is_none() {
        reach("reported");
        check(reported, "a_violation_no_comment_covers_is_reported");
    } else if let Some(p) = put.iter().find(|p| p.2 == K::Node(A.0)) {
        if p.1 == 0 {
            reach("suppressed");
            check(!reported, "a_suppressed_violation_is_silent");
        } else if p.0 > start {
            reach("reported");
            check(first == 2 && p.1 <= 2 || reported, "a_violation_no_comment_covers_is_reported");
        }
    }
    check(got.iter().filter(|g| violation(g.1)).count() == usize::from(reported), "no_other_violation_is_reported");
}
/// Code over several lines.
const PROGRAMS: [&str; 14] = [
    "f <- function(x,\n              y = any(is.na(z))) {\n  any(is.na(x))\n}",
    "if (any(is.na(x))) {\n  1\n} else if (y) {\n  any(is.na(x))\n} else {\n  2\n}",
    "x <-\n  any(is.na(x))",
    "g(\n  a = any(is.na(x)),\n  b,\n  c = list(\n    any(is.na(y))\n  )\n)",
    "x |>\n  f(any(is.na(y))) |>\n  h()",
    "for (i in any(is.na(x)))\n{\n  any(is.na(i))\n}",
    "while (x) {\n}\nany(is.na(x))",
    "repeat {\n  {\n    any(is.na(x))\n  }\n  break\n}",
    "x[\n  any(is.na(x)),\n  1\n]",
    "(\n  any(is.na(x))\n)\n!any(is.na(x)) &&\n  y",
    "f(function(x) {\n  any(is.na(x))\n}, {\n  any(is.na(y))\n})",
    "switch(x,\n  a = ,\n  b = {\n    any(is.na(x))\n  },\n  any(is.na(y))\n)",
    "{\n  if (a)\n    any(is.na(x))\n  else\n    any(is.na(y))\n}",
    "x <- c(\n  1,\n  2)[[\n  any(is.na(x))\n]]; any(is.na(y))\n-1",
];
/// One or two suppression comments anywhere in code over several lines.
fn anywhere() {
    const C: [(&str, K); 10] = [
        ("# jarl-ignore any_is_na: r", K::Node(A.0)),
        ("# jarl-ignore any_duplicated: r", K::Node(B.0)),
        ("# jarl-ignore-file any_is_na: r", K::File(A.0)),
        ("# jarl-ignore-file any_duplicated: r", K::File(B.0)),
        ("# jarl-ignore-start any_is_na: r", K::Start(A.0)),
        ("# jarl-ignore-end any_is_na", K::End(A.0)),
        ("# jarl-ignore-start any_duplicated: r", K::Start(B.0)),
        ("# jarl-ignore any_isna: r", K::Bad(Some("misnamed_suppression"))),
        ("# jarl-ignore any_is_na", K::Bad(Some("unexplained_suppression"))),
        ("# note", K::Bad(None)),
    ];
    let mode = param(1) as u32;
    let lines: Vec<&str> = PROGRAMS[choose(PROGRAMS.len())].split('\n').collect();
    let n = 1 + choose(param(0));
    let mut at = vec![];
    let mut what = vec![];
    for k in 0..n {
        at.push(choose(lines.len() + 1));
        what.push(C[if k == 0 { choose(C.len()) } else { [0, 4, 5][choose(3)] }]);
        assume(k == 0 || what[0].1 != what[1].1);
    }
    let mut text = String::new();
    let mut row = 0;
    // Rows of comments, rows of violations before and with comments.
    let mut put = vec![(0, K::Close); n];
    let mut old = vec![];
    let mut new = vec![];
    for i in 0..=lines.len() {
        for k in 0..n {
            if at[k] == i {
                text.push_str(what[k].0);
                text.push('\n');
                put[k] = (row, what[k].1);
                row += 1;
            }
        }
        if i < lines.len() {
            for _ in 0..lines[i].matches("any(is.na(").count() {
                old.push(i);
                new.push(row);
            }
            text.push_str(lines[i]);
            text.push('\n');
            row += 1;
        }
    }
    note(|| text.clone());
    let Some(d) = lint(&text, "a.R", &config(RULES)) else {
        // An `else` on its own.
        assume(false);
        return;
    };
    let got: Vec<(usize, &str)> = d.iter().map(|d| (text.as_bytes()[..u32::from(d.range.start()) as usize].iter().filter(|c| **c == b'\n').count(), d.message.name.as_str())).collect();
    note(|| format!("{got:?}"));
    let silenced: Vec<usize> = new.iter().copied().filter(|i| !got.contains(&(*i, A.0))).collect();
    let said = |i: usize| got.iter().filter(|g| g.0 == i && !violation(g.1)).count();
    let is = |k: K| put.iter().find(|p| p.1 == k).map(|p| p.0);
    silence(mode, got.iter().filter(|g| violation(g.1)).all(|g| g.1 == A.0 && new.contains(&g.0)), "no_other_violation_is_reported");
    comments(mode, got.iter().filter(|g| !violation(g.1)).all(|g| put.iter().any(|p| p.0 == g.0)), "no_other_comment_is_reported");
    for &(i, k) in &put {
        match k {
            K::Bad(None) => comments(mode, said(i) == 0, "no_other_comment_is_reported"),
            K::Bad(Some(r)) => comments(mode, said(i) == 1 && got.contains(&(i, r)), "a_wrong_suppression_comment_is_reported"),
            // It suppresses nothing.
            K::Node(r) | K::File(r) | K::Start(r) if r == B.0 => comments(mode, said(i) == 1, "a_suppression_without_violation_is_reported_as_outdated"),
            _ => {}
        }
    }
    // A comment silences something or is reported.
    let live: Vec<(usize, K)> = put.iter().copied().filter(|p| matches!(p.1, K::Node(r) | K::File(r) | K::Start(r) | K::End(r) if r == A.0)).collect();
    let open: Vec<(usize, K)> = live.iter().copied().filter(|p| said(p.0) == 0).collect();
    if silenced.is_empty() {
        reach("reported");
        // The end of a region goes with its start.
        comments(mode, open.iter().all(|p| matches!(p.1, K::End(_))), "a_suppression_without_violation_is_reported_as_outdated");
    } else {
        reach("suppressed");
        silence(mode, !open.is_empty() || live.len() > 1, "a_violation_no_comment_covers_is_reported");
    }
    if live.len() == 1 && matches!(live[0].1, K::Start(_) | K::End(_)) {
        silence(mode, silenced.is_empty(), "a_violation_no_comment_covers_is_reported");
        comments(mode, got.contains(&(live[0].0, "unmatched_range_suppression")), "a_wrong_suppression_comment_is_reported");
    }
    if let (Some(s), Some(e)) = (is(K::Start(A.0)), is(K::End(A.0))) {
        let matched = s < e && got.iter().all(|g| g.1 != "unmatched_range_suppression");
        comments(mode, matched || got.contains(&(s, "unmatched_range_suppression")) && got.contains(&(e, "unmatched_range_suppression")), "a_wrong_suppression_comment_is_reported");
        let want: Vec<usize> = new.iter().copied().filter(|i| matched && s < *i && *i < e).collect();
        silence(mode, want == silenced, "a_region_silences_what_is_in_it");
        if matched {
            reach("region");
        }
    }
    // A comment at the top is for the first statement, or the whole file.
    if n == 1 && at[0] == 0 {
        match what[0].1 {
            K::File(r) if r == A.0 => silence(mode, silenced.len() == new.len(), "a_suppressed_violation_is_silent"),
            K::Node(r) if r == A.0 && PROGRAMS.iter().position(|p| p.starts_with(lines[0])).is_some_and(|p| ![6, 9, 13].contains(&p)) => {
                silence(mode, silenced.len() == new.len(), "a_suppressed_violation_is_silent")
            }
            _ => {}
        }
    }
    // A file's comment below code.
    if at[0] > 0 && matches!(what[0].1, K::File(_)) {
        comments(mode, got.contains(&(put[0].0, "misplaced_file_suppression")), "a_wrong_suppression_comment_is_reported");
        silence(mode, n > 1 || silenced.is_empty(), "a_violation_no_comment_covers_is_reported");
    }
    // What is above a comment is not what it is for.
    if n == 1 && what[0].1 == K::Node(A.0) {
        silence(mode, old.iter().zip(&new).all(|(o, n)| *o >= at[0] || !silenced.contains(n)), "a_comment_is_for_what_is_below");
    }
}
pub fn run(i: u32) {
    match i {
        33 => anywhere(),
        32 => split(),
        30 => semantics(),
        31 => rmd(),
        _ => {}
    }
}
