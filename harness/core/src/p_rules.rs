use crate::doc_rules::DOC;
use crate::rt::*;
use crate::rule_set::*;
use std::str::FromStr;

fn all() -> &'static [Rule] {
    Rule::all()
}
fn lookup(s: &str) {
    note(|| format!("name {s:?}"));
    let want = all().iter().copied().find(|r| r.name().as_bytes() == s.as_bytes());
    check(Rule::from_name(s) == want, "from_name_inverts_name");
    reach(if want.is_some() { "known" } else { "unknown" });
}
fn neighbour(t: &str) -> String {
    let t = t.as_bytes();
    let op = choose(3);
    let p = choose(t.len() + if op == 1 { 1 } else { 0 });
    let mut v = t[..p].to_vec();
    if op < 2 {
        v.push(ascii());
    }
    v.extend_from_slice(&t[if op == 1 { p } else { p + 1 }..]);
    unsafe { String::from_utf8_unchecked(v) }
}
fn is(s: FixStatus, k: char) -> bool {
    matches!((s, k), (FixStatus::Safe, 's') | (FixStatus::Unsafe, 'u') | (FixStatus::None, 'n'))
}
pub fn run(i: u32) {
    match i {
        0 => lookup(&neighbour(all()[choose(all().len())].name())),
        1 => {
            let a = all()[choose(all().len())];
            let b = all()[choose(all().len())];
            note(|| format!("rules {a} {b}"));
            check((a.name() == b.name()) == (a == b), "names_are_unique");
            check(Rule::from_name(a.name()) == Some(a), "every_rule_is_found_by_name");
            check(a.to_string() == a.name(), "display_is_the_name");
            check(ALL_RULES.iter().filter(|r| **r == a).count() == 1, "listed_once");
            let n = a.name().as_bytes();
            check(n.iter().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || *c == b'_') && !n.is_empty(), "name_is_a_directive_word");
            let s = RuleSet::from_rules(vec![a]);
            check(s.contains(&b) == (a == b) && s.contains_name(b.name()) == (a == b), "set_membership");
            reach("pair");
        }
        2 => {
            let r = all()[choose(all().len())];
            let c = Category::ALL[choose(Category::ALL.len())];
            note(|| format!("rule {r} category {c}"));
            let listed = r.categories().iter().any(|x| x.as_str() == c.as_str());
            check(r.has_category(c) == listed, "has_category");
            check(Rule::by_category(c).any(|x| x == r) == listed, "by_category");
            check(!r.categories().is_empty(), "every_rule_has_a_category");
            check(Rule::from_name(c.as_str()).is_none(), "categories_and_rules_do_not_clash");
            check(Category::from_str(c.as_str()) == Ok(c) && c.to_string() == c.as_str(), "category_round_trip");
            reach(if listed { "in" } else { "out" });
        }
        3 => {
            let s = neighbour(Category::ALL[choose(Category::ALL.len())].as_str());
            note(|| format!("category {s:?}"));
            let want = Category::ALL.iter().copied().find(|c| c.as_str().as_bytes() == s.as_bytes());
            check(Category::from_str(&s).ok() == want, "category_from_str");
            reach(if want.is_some() { "known" } else { "unknown" });
        }
        4 => {
            let r = all()[choose(all().len())];
            note(|| format!("rule {r}"));
            let f = r.fix_status();
            check(r.has_safe_fix() == is(f, 's') && r.has_unsafe_fix() == is(f, 'u') && r.has_no_fix() == is(f, 'n'), "fix_predicates");
            let k = choose(3);
            let st = [FixStatus::None, FixStatus::Safe, FixStatus::Unsafe][k];
            check(Rule::by_fix_status(st).any(|x| x == r) == (f == st), "by_fix_status");
            let on = r.default_status() == DefaultStatus::Enabled;
            check(r.is_enabled_by_default() == on && r.is_disabled_by_default() != on, "default_predicates");
            check(Rule::enabled_by_default().any(|x| x == r) == on && Rule::disabled_by_default().any(|x| x == r) != on, "default_iterators");
            check(r.is_deprecated() == r.deprecation().is_some(), "is_deprecated");
            if let Some(d) = r.deprecation() {
                let to = Rule::from_name(d.replacement);
                check(to.is_some_and(|t| t != r && !t.is_deprecated()), "replacement_is_a_live_rule");
                reach("deprecated");
            }
            if let Some(d) = DOC.iter().find(|d| d.0 == r.name()) {
                check(d.1.len() == r.categories().len() && d.1.iter().all(|c| r.categories().iter().any(|x| x.as_str() == *c)), "documented_categories");
                check(d.2 == '?' || is(f, d.2), "documented_fix");
                check(d.3 != on, "documented_default");
                check(d.4 == r.minimum_r_version(), "documented_minimum_r_version");
                reach("documented");
            }
        }
        5 => {
            // every documented rule exists
            let d = &DOC[choose(DOC.len())];
            note(|| format!("documented rule {}", d.0));
            check(Rule::from_name(d.0).is_some(), "documented_rule_exists");
            reach("documented");
        }
        _ => {
            // sets of n rules
            let n = param(0);
            let mut v = vec![];
            for _ in 0..n {
                v.push([Rule::Seq, Rule::Seq2, Rule::Browser, Rule::AllEqual][choose(4)]);
            }
            let probe = [Rule::Seq, Rule::Seq2, Rule::Browser, Rule::AllEqual, Rule::Sort][choose(5)];
            note(|| format!("set {v:?} probe {probe}"));
            let has = v.iter().any(|r| *r == probe);
            let s = RuleSet::from_rules(v.clone());
            let t: RuleSet = v.iter().collect();
            let u: RuleSet = v.iter().copied().collect();
            check(s == t && t == u, "collect_is_from_rules");
            check(s.len() == n && s.is_empty() == (n == 0) && s.iter().eq(v.iter()), "len_and_iter");
            check(s.contains(&probe) == has && s.contains_name(probe.name()) == has, "contains");
            let k = s.filter(|r| *r != probe);
            check(!k.contains(&probe) && k.len() == v.iter().filter(|r| **r != probe).count(), "filter");
            check(RuleSet::all().contains(&probe) && RuleSet::all().len() == all().len() && RuleSet::empty().is_empty(), "all_and_empty");
            reach(if has { "has" } else { "has_not" });
        }
    }
}
