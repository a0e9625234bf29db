//! Which rules run and which fixes are applied.
use crate::rt::*;
use crate::*;
use jarl_core::config::parse_r_version;
use jarl_core::rule_set::Rule;
use jarl_core::settings::{LinterSettings, Settings};

/// A list as written by the user and what it stands for.
pub struct Sel {
    pub text: &'static str,
    pub items: &'static [&'static str],
    pub ok: bool,
}
const fn s(text: &'static str, items: &'static [&'static str], ok: bool) -> Sel {
    Sel { text, items, ok }
}
pub const SELS: [Sel; 10] = [
    s("", &[], true),
    s("PERF", &["@PERF"], true),
    s("any_is_na,browser", &["any_is_na", "browser"], true),
    s(" grepv , READ", &["grepv", "@READ"], true),
    s("ALL", &["*"], true),
    s("TESTTHAT,any_is_na", &["@TESTTHAT", "any_is_na"], true),
    s("coalesce", &["coalesce"], true),
    s("any_is_na,nope", &[], false),
    s("perf", &[], false),
    s("CORR,", &[], false),
];
fn has(items: &[&str], r: Rule) -> bool {
    items.iter().any(|i| *i == "*" || *i == r.name() || i.strip_prefix('@').is_some_and(|c| r.categories().iter().any(|k| k.as_str() == c)))
}
fn list(s: &Sel) -> Option<Vec<String>> {
    (!s.text.is_empty()).then(|| s.text.split(',').map(String::from).collect())
}
/// Which rules are on: select / extend-select of the command line before those
/// of the file, ignore of both.
fn selection() {
    let (which, tomls) = (param(0), param(1) == 1);
    // Any three (two) of the six lists vary, the others are absent.
    let mut v: [usize; 6] = [0; 6];
    let tri: [[usize; 3]; 7] = [[0, 1, 2], [3, 4, 5], [0, 3, 2], [1, 4, 5], [0, 4, 2], [3, 1, 5], [0, 2, 5]];
    for k in tri[which] {
        v[k] = choose(SELS.len());
    }
    let [a, b, c, d, e, f] = v.map(|i| &SELS[i]);
    let mut args = args(a.text);
    args.extend_select = b.text.into();
    args.ignore = c.text.into();
    let version = [None, Some((4, 4, 0)), Some((4, 5, 0))][choose(3)];
    args.min_r_version = version.map(|v| format!("{}.{}.{}", v.0, v.1, v.2));
    let set = Settings { linter: LinterSettings { select: list(d), extend_select: list(e), ignore: list(f), ..Default::default() } };
    let toml = tomls || v[3] + v[4] + v[5] > 0;
    let r = build_config(&args, if toml { Some(&set) } else { None }, vec![]);
    let ok = [a, b, c, d, e, f].iter().all(|s| s.ok);
    let Ok(r) = r else {
        check(!ok, "known_rules_and_groups_are_accepted");
        reach("rejected");
        return;
    };
    check(ok, "an_unknown_rule_is_an_error");
    let base = if v[0] > 0 { Some(a.items) } else if v[3] > 0 { Some(d.items) } else { None };
    let ext = if v[1] > 0 { b.items } else { e.items };
    for r0 in Rule::all() {
        let mut on = base.map_or(r0.is_enabled_by_default(), |i| has(i, *r0));
        on = on || has(ext, *r0);
        on = on && !has(c.items, *r0) && !has(f.items, *r0);
        on = on && match (r0.minimum_r_version(), version) {
            (None, _) => true,
            (Some(_), None) => false,
            (Some(m), Some(v)) => m <= v,
        };
        check(r.rules.contains(r0) == on, "exactly_the_selected_rules_run");
        check(r.rules_to_apply.contains(r0) == on, "exactly_the_selected_rules_are_reported");
    }
    reach("selected");
}
/// A rule name with a symbolic byte in every list.
fn typo() {
    let name = "any_is_na";
    let i = choose(name.len());
    let mut t: Vec<u8> = name.bytes().collect();
    t[i] = byte(32, 126);
    let t = String::from_utf8(t).unwrap();
    let is = t == name;
    let mut a = args("");
    let mut l = LinterSettings::default();
    match choose(8) {
        0 => a.select = t.clone(),
        1 => a.extend_select = t.clone(),
        2 => a.ignore = t.clone(),
        3 => l.select = Some(vec![t.clone()]),
        4 => l.extend_select = Some(vec![t.clone()]),
        5 => l.ignore = Some(vec![t.clone()]),
        6 => l.fixable = Some(vec![t.clone()]),
        _ => l.unfixable = Some(vec![t.clone()]),
    }
    let set = Settings { linter: l };
    // A comma separates names on the command line; blanks around them are dropped.
    assume(t.as_bytes()[i] != b',' && !(t.as_bytes()[i] == b' ' && (i == 0 || i == 8)));
    let r = build_config(&a, Some(&set), vec![]);
    match r {
        Ok(_) => {
            check(is, "an_unknown_rule_is_an_error");
            reach("known");
        }
        Err(e) => {
            check(!is, "known_rules_and_groups_are_accepted");
            check(e.to_string().contains(&t), "the_error_names_the_unknown_rule");
            reach("unknown");
        }
    }
}
/// `x.y` and `x.y.z`.
fn version() {
    let t = text(b"0149.x ", param(0));
    let mut p: Vec<Option<u64>> = Vec::new();
    for q in t.split('.') {
        let mut n = Some(0u64);
        if q.is_empty() {
            n = None;
        }
        for b in q.bytes() {
            n = match (n, b) {
                (Some(n), b'0'..=b'9') => Some(n * 10 + (b - b'0') as u64),
                _ => None,
            };
        }
        p.push(n);
    }
    let want = if (p.len() == 2 || p.len() == 3) && p.iter().all(|x| x.is_some()) {
        Some((p[0].unwrap() as u32, p[1].unwrap() as u32, p.get(2).map_or(0, |x| x.unwrap() as u32)))
    } else {
        None
    };
    let got = parse_r_version(t.clone()).ok();
    check(got == want, "a_version_is_two_or_three_numbers");
    if let Some(v) = want {
        reach("version");
        let mut a = args("ALL");
        a.min_r_version = Some(t);
        let c = build_config(&a, None, vec![]).unwrap();
        check(c.minimum_r_version == want, "the_version_given_is_used");
        for r in Rule::all() {
            let on = r.minimum_r_version().is_none_or(|m| m.0 < v.0 || m.0 == v.0 && (m.1 < v.1 || m.1 == v.1 && m.2 <= v.2));
            check(c.rules.contains(r) == on, "a_rule_runs_if_the_version_is_recent_enough");
        }
    } else {
        reach("not_a_version");
    }
}
/// The version of the DESCRIPTION the file belongs to.
fn version_of_project() {
    mockfs::reset();
    let files = ["/w/p/R/a.R", "/w/p/a.R", "/w/p/tests/testthat/a.R", "/w/a.R"];
    let file = files[choose(files.len())];
    mockfs::add_file(file, b"x\n");
    let depends = ["Package: p\nDepends: R (>= 4.~)\n", "Package: p\n", "Package: p\nDepends:\n    R (>= 4.~.0),\n    methods\n", "Package: p\nImports: R (>= 4.~)\n"];
    let dirs = ["/w/p", "/w", "/w/p/R", "/w/q"];
    let mut at: Vec<(usize, usize, u8)> = Vec::new();
    for k in 0..1 + choose(2) {
        let d = choose(dirs.len());
        let t = choose(depends.len());
        let n = byte(b'0', b'9');
        assume(k == 0 || at[0].0 != d);
        let s: String = depends[t].chars().map(|c| if c == '~' { n as char } else { c }).collect();
        mockfs::add_file(&format!("{}/DESCRIPTION", dirs[d]), s.as_bytes());
        at.push((d, t, n - b'0'));
    }
    // The innermost directory above the file that has one.
    let mut best: Option<&(usize, usize, u8)> = None;
    for x in &at {
        if file.starts_with(&format!("{}/", dirs[x.0])) && best.is_none_or(|b| dirs[b.0].len() < dirs[x.0].len()) {
            best = Some(x);
        }
    }
    let own = best.filter(|b| b.1 == 0 || b.1 == 2).map(|b| (4, b.2 as u32, 0));
    let cli = flag();
    let mut a = args("ALL");
    if cli {
        a.min_r_version = Some("4.4".into());
    }
    let want = if cli { Some((4, 4, 0)) } else { own };
    let c = build_config(&a, None, vec![file.into()]);
    match c {
        Ok(c) => {
            check(c.minimum_r_version == want, "the_version_is_that_of_the_files_project_unless_given");
            reach(if want.is_some() { "version" } else { "no_version" });
        }
        Err(_) => check(false, "a_project_is_readable"),
    }
}
pub fn run(i: u32) {
    match i {
        20 => selection(),
        21 => typo(),
        22 => version(),
        23 => version_of_project(),
        _ => {}
    }
}
