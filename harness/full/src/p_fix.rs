//! Applying fixes to a text.
use crate::rt::*;
use crate::*;
use biome_rowan::TextRange;
use jarl_core::diagnostic::{Fix, ViolationData};
use jarl_core::fix::apply_fixes;

fn diag(f: Fix) -> Diagnostic {
    Diagnostic::new(ViolationData::empty(), TextRange::empty(0.into()), f)
}
/// Any K fixes, in any order, on any text: the result is the text with a set of
/// pairwise disjoint fixes spliced in at their own places.
fn splice() {
    let (n, k) = (param(0), param(1));
    let text = text_multi(b"ab\n", &["\u{e9}", "\u{1F600}"], n);
    let mut cuts: Vec<usize> = text.char_indices().map(|c| c.0).collect();
    cuts.push(text.len());
    let subs = ["x", "", "\u{e9}y", "longer \u{1F600} text"];
    let mut fixes: Vec<(usize, usize, String, bool)> = Vec::new();
    for _ in 0..k {
        if choose(6) == 0 {
            // A diagnostic without a fix.
            fixes.push((0, 0, String::new(), true));
            continue;
        }
        let i = choose(cuts.len() - 1);
        let j = i + 1 + choose(cuts.len() - 1 - i);
        fixes.push((cuts[i], cuts[j], subs[choose(subs.len())].to_string(), false));
    }
    let d: Vec<Diagnostic> = fixes.iter().map(|f| diag(Fix { content: f.2.clone(), start: f.0, end: f.1, to_skip: f.3 })).collect();
    let (again, out) = apply_fixes(&d, &text);
    let real: Vec<&(usize, usize, String, bool)> = fixes.iter().filter(|f| !f.3).collect();
    let mut found = false;
    let mut all = false;
    for m in 0..1u32 << real.len() {
        let mut s: Vec<&(usize, usize, String, bool)> = (0..real.len()).filter(|i| m >> i & 1 == 1).map(|i| real[i]).collect();
        s.sort_by_key(|f| f.0);
        if s.windows(2).any(|w| w[0].1 > w[1].0) {
            continue;
        }
        let mut want = String::new();
        let mut at = 0;
        for f in &s {
            want.push_str(&text[at..f.0]);
            want.push_str(&f.2);
            at = f.1;
        }
        want.push_str(&text[at..]);
        if want == out {
            // Progress: a pass never leaves everything for later.
            if !real.is_empty() && s.is_empty() && again {
                continue;
            }
            found = true;
            if s.len() == real.len() {
                all = true;
            }
        }
    }
    check(found, "the_result_is_the_text_with_disjoint_fixes_spliced_in");
    if !again {
        check(all, "another_pass_is_requested_when_a_fix_was_left_out");
        reach("one_pass");
    } else {
        check(real.len() > 1, "a_single_fix_needs_one_pass");
        reach("left_out");
    }
    if real.is_empty() {
        check(out == text && !again, "without_fixes_the_text_stays");
        reach("no_fix");
    }
}

/// A violation, its rule, whether its fix is safe, unsafe or missing, and the fixed code.
struct Ex {
    code: &'static str,
    rule: &'static str,
    kind: u8,
    fixed: &'static str,
}
const EXS: [Ex; 7] = [
    Ex { code: "x <- 1", rule: "", kind: b'n', fixed: "x <- 1" },
    Ex { code: "any(is.na(x))", rule: "any_is_na", kind: b's', fixed: "anyNA(x)" },
    Ex { code: "!all.equal(x, y)", rule: "all_equal", kind: b'u', fixed: "!isTRUE(all.equal(x, y))" },
    Ex { code: "list(a = 1, a = 2)", rule: "duplicated_arguments", kind: b'n', fixed: "list(a = 1, a = 2)" },
    Ex { code: "x == NA", rule: "equals_na", kind: b's', fixed: "is.na(x)" },
    Ex { code: "length(levels(y))", rule: "length_levels", kind: b's', fixed: "nlevels(y)" },
    Ex { code: "# jarl-ignore any_is_na: r\nany(is.na(y))", rule: "", kind: b'n', fixed: "# jarl-ignore any_is_na: r\nany(is.na(y))" },
];
pub fn paths(p: &[&str]) -> Vec<std::path::PathBuf> {
    p.iter().map(|p| p.into()).collect()
}
pub fn now(p: &str) -> &'static str {
    std::str::from_utf8(mockfs::file(p).unwrap_or(b"")).unwrap_or("?")
}
/// Which fixes `check` writes to the file, by flags and fixable / unfixable.
fn gating() {
    use jarl_core::settings::{LinterSettings, Settings};
    mockfs::reset();
    let n = param(0);
    let v: Vec<&Ex> = (0..n).map(|_| &EXS[choose(EXS.len())]).collect();
    let join = |f: &dyn Fn(&Ex) -> &'static str| -> String {
        let mut t = String::new();
        for e in &v {
            t.push_str(f(e));
            t.push('\n');
        }
        t
    };
    let old = join(&|e| e.code);
    let rmd = param(1) == 1;
    let file = if rmd { "/w/a.Rmd" } else { "/w/a.R" };
    let old = if rmd { format!("```{{r}}\n{old}```\n") } else { old };
    mockfs::add_file(file, old.as_bytes());
    let mut a = args("");
    (a.fix, a.unsafe_fixes, a.fix_only) = (flag(), flag(), flag());
    const LISTS: [(&[&str], &[&str]); 4] = [(&[], &[]), (&["any_is_na", "all_equal"], &["any_is_na", "all_equal"]), (&["PERF"], &["any_is_na", "length_test"]), (&["ALL"], &["*"])];
    let (fx, un) = (choose(5), choose(4));
    let own = |l: &[&str]| Some(l.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    let set = Settings { linter: LinterSettings { fixable: if fx == 4 { None } else { own(LISTS[fx].0) }, unfixable: if un == 0 && flag() { None } else { own(LISTS[un].0) }, ..Default::default() } };
    let on = |l: &[&str], r: &str| l.iter().any(|x| *x == "*" || *x == r);
    let c = build_config(&a, Some(&set), paths(&[file])).unwrap();
    let fixing = a.fix || a.unsafe_fixes || a.fix_only;
    let does = |e: &Ex| fixing && !rmd && (e.kind == b's' || e.kind == b'u' && a.unsafe_fixes) && (fx == 4 || on(LISTS[fx].1, e.rule)) && !on(LISTS[un].1, e.rule);
    let want = if rmd { old.clone() } else { join(&|e| if does(e) { e.fixed } else { e.code }) };
    let r = jarl_core::check::check(c);
    let new = now(file);
    if !fixing {
        check(new == old && mockfs::log().is_empty(), "without_a_fix_flag_no_file_is_written");
    }
    if !a.unsafe_fixes {
        check(v.iter().all(|e| e.kind != b'u') || new.contains(".equal(x, y)") && !new.contains("isTRUE") , "unsafe_fixes_need_unsafe_fixes");
    }
    check(new == want, "exactly_the_enabled_fixes_are_applied");
    check(r.len() == 1, "every_file_has_a_result");
    let (p, d) = &r[0];
    check(p == &file[3..], "a_result_names_its_file");
    let Ok(d) = d else {
        check(false, "the_file_is_linted");
        return;
    };
    for e in &v {
        let left = d.iter().filter(|d| d.message.name == e.rule).count();
        let all = v.iter().filter(|x| x.rule == e.rule).count();
        if e.rule.is_empty() {
            continue;
        }
        if does(e) {
            check(left == 0, "what_was_fixed_is_not_reported");
            reach("fixed");
        } else if !fixing || (e.kind != b'u' || a.unsafe_fixes) && !(a.fix_only && e.kind == b'n') {
            check(left == all, "what_was_not_fixed_is_reported");
            reach("reported");
        } else if a.fix_only && e.kind == b'n' {
            check(left == 0, "fix_only_does_not_report_what_it_cannot_fix");
            reach("fix_only");
        }
    }
}
/// Whether files may be fixed, by repositories, their state and flags.
fn version_control() {
    use git2::{Entry, Repo, Status};
    mockfs::reset();
    let files = ["/w/a/x.R", "/w/a/sub/y.R", "/w/b/z.R"];
    let used: Vec<&str> = match choose(4) {
        0 => vec![files[0]],
        1 => vec![files[0], files[2]],
        2 => vec![files[1], files[0]],
        _ => vec![files[2], files[1]],
    };
    for f in &used {
        mockfs::add_file(f, b"any(is.na(x))\n");
    }
    git2::repos().clear();
    let mut dirty: Vec<(&str, bool)> = Vec::new();
    let layouts: [&[&str]; 5] = [&[], &["/w/a"], &["/w/a", "/w/b"], &["/w"], &["/w/a", "/w/a/sub", "/w/b"]];
    let names: [&[u8]; 3] = [b"x.R", b"other file.txt", b"caf\xe9.R"];
    for root in layouts[choose(if param(0) == 1 { 5 } else { 4 })] {
        let mut entries = Vec::new();
        let mut d = false;
        let k = choose(4);
        if k > 0 {
            let st = [Status::CURRENT, Status::WT_MODIFIED, Status::WT_NEW, Status::INDEX_MODIFIED | Status::WT_MODIFIED, Status::INDEX_NEW, Status::WT_DELETED, Status::CONFLICTED, Status::IGNORED][choose(if param(0) == 1 { 8 } else { 3 })];
            entries.push(Entry { path: names[k - 1].to_vec(), status: st });
            d = st != Status::CURRENT && st != Status::IGNORED;
        }
        git2::repos().push(Repo { root: root.to_string(), entries });
        dirty.push((root, d));
    }
    let mut a = args("any_is_na");
    (a.fix, a.allow_dirty, a.allow_no_vcs) = (true, flag(), flag());
    let c = build_config(&a, None, paths(&used)).unwrap();
    let r = jarl_core::check::check(c);
    let mut covered = true;
    let mut clean = true;
    for f in &used {
        match dirty.iter().filter(|d| f.starts_with(&format!("{}/", d.0))).max_by_key(|d| d.0.len()) {
            None => covered = false,
            Some(d) => clean = clean && !d.1,
        }
    }
    let may = a.allow_no_vcs || covered && (clean || a.allow_dirty);
    let fixed = used.iter().filter(|f| now(f) == "anyNA(x)\n").count();
    let kept = used.iter().filter(|f| now(f) == "any(is.na(x))\n").count();
    if may {
        check(fixed == used.len(), "files_under_version_control_are_fixed");
        check(r.iter().all(|x| x.1.is_ok()), "no_error_when_fixing_is_allowed");
        reach("fixed");
    } else {
        check(kept == used.len() && mockfs::log().is_empty(), "no_file_is_touched_unless_version_control_covers_it");
        check(r.iter().any(|x| x.1.is_err()), "refusing_to_fix_is_an_error");
        reach("refused");
    }
    git2::repos().clear();
}
pub fn run(i: u32) {
    match i {
        10 => splice(),
        11 => gating(),
        12 => version_control(),
        _ => {}
    }
}
