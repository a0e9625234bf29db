use crate::directive::*;
use crate::rt::*;
use crate::rule_set::Rule;

#[derive(PartialEq, Clone, Copy)]
enum Kind { Next, Chunk, File, Start, End }
#[derive(PartialEq, Clone, Copy)]
enum R {
    Not,              // not a directive
    Ok(Kind, usize),  // a valid directive for rule number n
    Blanket,
    NoReason,
    BadName,
    NotOrBlanket,     // names no rule: may be reported or ignored, never obeyed
}
fn ws(b: u8) -> bool {
    matches!(b, b' ' | 9..=13)
}
fn trim(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && ws(s[0]) {
        s = &s[1..];
    }
    while !s.is_empty() && ws(s[s.len() - 1]) {
        s = &s[..s.len() - 1];
    }
    s
}
fn pre<'a>(s: &'a [u8], p: &str) -> Option<&'a [u8]> {
    let p = p.as_bytes();
    if s.len() >= p.len() && &s[..p.len()] == p { Some(&s[p.len()..]) } else { None }
}
fn rule_no(name: &[u8]) -> Option<usize> {
    Rule::all().iter().position(|r| r.name().as_bytes() == name)
}
fn colon(s: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < s.len() {
        if s[i] == b':' {
            return Some(i);
        }
        i += 1;
    }
    None
}
/// `<rule>: <reason>`
fn rule_reason(s: &[u8], k: Kind, none: R) -> R {
    let (name, reason) = match colon(s) {
        Some(i) => (trim(&s[..i]), trim(&s[i + 1..])),
        None => (trim(s), &b""[..]),
    };
    if name.is_empty() {
        return none;
    }
    match rule_no(name) {
        None => R::BadName,
        Some(_) if reason.is_empty() => R::NoReason,
        Some(n) => R::Ok(k, n),
    }
}
fn reference(t: &[u8]) -> R {
    let mut i = 0;
    while i < t.len() && ws(t[i]) {
        i += 1;
    }
    let t = &t[i..];
    let (pipe, t) = if let Some(x) = pre(t, "#| ") {
        (true, x)
    } else if let Some(x) = pre(t, "# ") {
        (false, x)
    } else if let Some(x) = pre(t, "#") {
        (false, x)
    } else {
        return R::Not;
    };
    let Some(t) = pre(t, "jarl-ignore") else { return R::Not };
    if let Some(x) = pre(t, "-chunk") {
        if x.is_empty() || x[0] == b':' {
            return R::Blanket;
        }
        if x[0] != b' ' {
            return R::Not;
        }
        if x.len() > 1 && x[1] == b':' {
            return R::Blanket;
        }
        return rule_reason(&x[1..], Kind::Chunk, R::NotOrBlanket);
    }
    if pipe {
        return R::Not;
    }
    if t.is_empty() || t[0] == b':' {
        return R::Blanket;
    }
    if t[0] == b' ' {
        if t.len() > 1 && t[1] == b':' {
            return R::Blanket;
        }
        return rule_reason(&t[1..], Kind::Next, R::NotOrBlanket);
    }
    if let Some(x) = pre(t, "-file ") {
        return rule_reason(x, Kind::File, R::NotOrBlanket);
    }
    if let Some(x) = pre(t, "-start ") {
        return rule_reason(x, Kind::Start, R::NotOrBlanket);
    }
    if let Some(x) = pre(t, "-end ") {
        let name = trim(match colon(x) {
            Some(i) => &x[..i],
            None => x,
        });
        if name.is_empty() {
            return R::NotOrBlanket;
        }
        return match rule_no(name) {
            Some(n) => R::Ok(Kind::End, n),
            None => R::BadName,
        };
    }
    R::Not
}
fn view(d: Option<DirectiveParseResult>) -> R {
    let n = |r: Rule| rule_no(r.name().as_bytes()).unwrap_or(usize::MAX);
    match d {
        None => R::Not,
        Some(DirectiveParseResult::Valid(v)) => match v {
            LintDirective::Ignore(r) => R::Ok(Kind::Next, n(r)),
            LintDirective::IgnoreChunk(r) => R::Ok(Kind::Chunk, n(r)),
            LintDirective::IgnoreFile(r) => R::Ok(Kind::File, n(r)),
            LintDirective::IgnoreStart(r) => R::Ok(Kind::Start, n(r)),
            LintDirective::IgnoreEnd(r) => R::Ok(Kind::End, n(r)),
        },
        Some(DirectiveParseResult::BlanketSuppression) => R::Blanket,
        Some(DirectiveParseResult::MissingExplanation) => R::NoReason,
        Some(DirectiveParseResult::InvalidRuleName) => R::BadName,
    }
}
fn judge(want: R, got: R) {
    match want {
        R::NotOrBlanket => check(matches!(got, R::Not | R::Blanket), "a_directive_without_rule_is_never_obeyed"),
        R::Not => check(got == R::Not, "not_a_directive"),
        R::Ok(..) => check(got == want, "valid_directive"),
        R::Blanket => check(got == R::Blanket, "blanket_suppression"),
        R::NoReason => check(got == R::NoReason, "missing_explanation"),
        R::BadName => check(got == R::BadName, "invalid_rule_name"),
    }
    reach(match want {
        R::NotOrBlanket => "no_rule",
        R::Not => "not",
        R::Ok(Kind::Next, _) => "next",
        R::Ok(Kind::Chunk, _) => "chunk",
        R::Ok(Kind::File, _) => "file",
        R::Ok(Kind::Start, _) => "start",
        R::Ok(Kind::End, _) => "end",
        R::Blanket => "blanket",
        R::NoReason => "no_reason",
        R::BadName => "bad_name",
    });
}
const WORDS: [&str; 7] = ["", "-file", "-start", "-end", "-chunk", "-fil", "-chunks"];
const NAMES: [&str; 5] = ["any_is_na", "seq", "seq2", "", "sort seq"];

/// A comment assembled from grammar pieces with symbolic separators.
fn pieces(n: usize) -> String {
    let mut s = String::new();
    if flag() {
        s.push_str(&text(b" \tx#", 1));
    }
    s.push('#');
    let m = choose(n + 1);
    s.push_str(&text(b"| #\t", m));
    s.push_str("jarl-ignore");
    s.push_str(WORDS[choose(7)]);
    let m = choose(3);
    s.push_str(&text(b" :\t-f", m));
    s.push_str(NAMES[choose(5)]);
    let m = choose(3);
    s.push_str(&text(b" :\tx", m));
    s.push_str(["", "why", "é : b"][choose(3)]);
    s
}
const VALID: [&str; 9] = [
    "# jarl-ignore seq: why",
    "#jarl-ignore-file any_is_na: a b",
    "# jarl-ignore-start seq2 : r",
    "# jarl-ignore-end sort",
    "#| jarl-ignore-chunk repeat: r",
    "# jarl-ignore",
    "# jarl-ignore: x",
    "#| jarl-ignore-chunk: x",
    "# jarl-ignore-chunk",
];
/// One byte of a directive replaced by, or one inserted of, any ASCII byte, or one deleted.
fn neighbour(list: &[&str]) -> String {
    let t = list[choose(list.len())].as_bytes();
    let op = choose(3);
    let p = choose(t.len() + if op == 1 { 1 } else { 0 });
    let mut v = t[..p].to_vec();
    if op < 2 {
        v.push(ascii());
    }
    v.extend_from_slice(&t[if op == 1 { p } else { p + 1 }..]);
    unsafe { String::from_utf8_unchecked(v) }
}
fn item_ref(t: &[u8]) -> R {
    let t = trim(t);
    let Some(t) = pre(t, "#|") else { return R::Not };
    let t = trim(t);
    let Some(x) = pre(t, "-") else { return R::Not };
    if x.is_empty() || !ws(x[0]) {
        return R::Not;
    }
    rule_reason(trim(x), Kind::Chunk, R::Not)
}
const ITEMS: [&str; 5] = ["#|   - any_is_na: why", "#| - seq2: a : b", "#|-\tsort : e", "  #|  - seq", "#| jarl-ignore-chunk:"];
fn item_pieces(n: usize) -> String {
    let mut s = String::new();
    if flag() {
        s.push_str(&text(b" \tx", 1));
    }
    s.push('#');
    let m = choose(n + 1);
    s.push_str(&text(b"| -\t", m));
    let m = choose(n);
    s.push_str(&text(b" -\t:", m));
    s.push_str(NAMES[choose(5)]);
    let m = choose(n);
    s.push_str(&text(b" :\tx", m));
    s.push_str(["", "why", "é : b"][choose(3)]);
    s
}
fn header_ref(t: &[u8]) -> bool {
    trim(t) == b"#| jarl-ignore-chunk:"
}
const HEADERS: [&str; 3] = ["#| jarl-ignore-chunk:", " #| jarl-ignore-chunk: ", "# jarl-ignore-chunk:"];

fn comment(s: &str) {
    note(|| format!("comment {s:?}"));
    let got = view(parse_comment_directive(s));
    judge(reference(s.as_bytes()), got);
}
pub fn run(i: u32) {
    match i {
        0 => comment(&pieces(param(0))),
        1 => comment(&neighbour(&VALID)),
        2 => {
            // every rule, every kind
            let k = choose(5);
            let r = choose(Rule::all().len());
            let s = format!("#{}jarl-ignore{} {}{}", [" ", "| "][(k == 4) as usize], WORDS[k], Rule::all()[r].name(), text(b": x", 3));
            comment(&s);
        }
        10 => {
            let s = item_pieces(param(0));
            note(|| format!("item {s:?}"));
            judge(item_ref(s.as_bytes()), view(parse_quarto_chunk_array_item(&s)));
        }
        11 => {
            let s = neighbour(&ITEMS);
            note(|| format!("item {s:?}"));
            judge(item_ref(s.as_bytes()), view(parse_quarto_chunk_array_item(&s)));
        }
        _ => {
            let s = neighbour(&HEADERS);
            note(|| format!("header {s:?}"));
            let w = header_ref(s.as_bytes());
            check(is_quarto_chunk_array_header(&s) == w, "array_header");
            reach(if w { "header" } else { "not_header" });
        }
    }
}
