//! Fixing until nothing is left to fix.
use crate::p_fix::{now, paths};
use crate::p_rule::*;
use crate::rt::*;
use crate::*;

const FILE: &str = "/w/a.R";
fn fix_all(text: &str, select: &str) -> Option<(String, Vec<Diagnostic>)> {
    mockfs::reset();
    mockfs::add_file(FILE, text.as_bytes());
    let mut a = args(select);
    (a.fix, a.unsafe_fixes) = (true, true);
    a.min_r_version = Some("4.6.0".into());
    let c = build_config(&a, None, paths(&[FILE])).unwrap();
    let mut r = jarl_core::check::check(c);
    check(r.len() == 1, "every_file_has_a_result");
    match r.remove(0).1 {
        Ok(d) => Some((now(FILE).to_string(), d)),
        Err(_) => None,
    }
}
fn can_fix(d: &Diagnostic) -> bool {
    !d.fix.to_skip && !d.fix.content.is_empty()
}
/// What holds after fixing, whatever the code.
fn settled(text: &str, select: &str) -> Option<String> {
    note(|| format!("{select} {text:?}"));
    let Some((first, mut d)) = fix_all(text, select) else {
        check(false, "code_that_parses_is_fixed");
        return None;
    };
    let mut new = first.clone();
    // What a fix brings about may need another run.
    for k in 0..4 {
        note(|| format!("{new:?} {d:?}"));
        check(root(&new).is_some(), "fixed_code_parses");
        let Some((again, e)) = fix_all(&new, select) else {
            check(false, "fixed_code_is_checked");
            return None;
        };
        if again == new {
            check(!d.iter().any(can_fix), "no_fix_is_left");
            check(d.len() == e.len() && d.iter().zip(&e).all(|(a, b)| a.message.name == b.message.name && a.range == b.range), "what_is_reported_is_about_the_fixed_code");
            return Some(first);
        }
        check(d.iter().any(can_fix), "what_can_be_fixed_is_reported");
        check(k < 3, "fixing_comes_to_an_end");
        (new, d) = (again, e);
    }
    None
}
fn pick() -> (&'static str, &'static str, &'static str) {
    CASES[choose(CASES.len())]
}
/// A violation in a violation becomes the alternative in the alternative.
fn nested() {
    let (rule_o, bad_o, good_o) = CASES[(choose(CASES.len() / 4 + 1) * 4 + param(0)) % CASES.len()];
    assume(!good_o.is_empty() && bad_o.contains(['@', '$']));
    let (rule_i, bad_i, good_i) = pick();
    assume(!good_i.is_empty());
    let name = byte(b'g', b'p') as char;
    let inner = |s: &str| s.replace(['@', '$'], &name.to_string()).replace('§', "y");
    let outer = |s: &str, i: &str| s.replace('@', i).replace('$', &format!("({i})")).replace('§', "y");
    let text = format!("{}\n", outer(bad_o, &inner(bad_i)));
    assume(root(&text).is_some());
    let select = if rule_o == rule_i { rule_o.to_string() } else { format!("{rule_o},{rule_i}") };
    let mut a = args(&select);
    a.min_r_version = Some("4.6.0".into());
    let before = lint(&text, FILE, &build_config(&a, None, vec![]).unwrap()).unwrap_or_default();
    let count = |r: &str| before.iter().filter(|d| can_fix(d) && d.message.name == r).count();
    let copies = bad_o.matches(['@', '$']).count();
    let both = if rule_o == rule_i { count(rule_o) == 1 + copies } else { count(rule_o) == 1 && count(rule_i) == copies };
    let Some(new) = settled(&text, &select) else {
        return;
    };
    // Two negations may also cancel out.
    if !both || bad_i.starts_with('!') && ["expect_not", "redundant_ifelse"].contains(&rule_o) {
        return reach("odd");
    }
    let want = format!("{}\n", outer(good_o, &format!("({})", inner(good_i))));
    let (mut w, mut g) = (String::new(), String::new());
    let (Some(a), Some(b)) = (root(&want), root(&new)) else {
        return;
    };
    meaning(&a, &mut w);
    meaning(&b, &mut g);
    note(|| format!("want {want:?}"));
    reach("fixed");
    check(w == g, "both_are_fixed");
}
pub fn run(i: u32) {
    match i {
        70 => nested(),
        _ => {}
    }
}
