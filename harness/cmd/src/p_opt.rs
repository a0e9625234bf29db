//! What jarl.toml may say about rules, and what it then means.
use crate::rt::*;
use crate::*;

const NAMES: [&str; 12] = ["c", "mutate", "list2", "foo", "Foo", "stop", "abort", "browser", "suppressMessages", "quote", "expect_error", "foo.bar"];
const VALUES: [&[&str]; 8] = [&[], &["foo"], &["foo", "stop"], &["c"], &["Foo", "foo.bar", "x"], &["browser", "list2"], &["fo", "oo", "foo("], &["abort", "c", "quote"]];
struct Section {
    rule: &'static str,
    key: &'static str,
    defaults: &'static [&'static str],
    /// Whether the names are those that are reported.
    names_bad: bool,
    code: &'static str,
    row: usize,
}
const SECTIONS: [Section; 4] = [
    Section { rule: "duplicated_arguments", key: "skipped-functions", defaults: &["c", "mutate", "summarize", "transmute"], names_bad: false, code: "function() @(a = 1, a = 2)\n", row: 0 },
    Section { rule: "implicit_assignment", key: "skipped-functions", defaults: &["expect_error", "expect_warning", "expect_message", "expect_snapshot", "quote", "suppressMessages", "suppressWarnings"], names_bad: false, code: "function() @(zz <- 1)\n", row: 0 },
    Section { rule: "undesirable_function", key: "functions", defaults: &["browser"], names_bad: true, code: "function() @(1)\n", row: 0 },
    Section { rule: "unreachable_code", key: "stopping-functions", defaults: &["stop", ".Defunct", "abort", "cli_abort", "q", "quit"], names_bad: true, code: "function() {\n  @(1)\n  2\n}\n", row: 2 },
];
const FORMS: [&str; 3] = ["", "pkg::", "pkg:::"];

fn toml_list(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(", "))
}
/// Lists of functions.
fn lists() {
    mockfs::reset();
    // The sections in any order; one or two of them set.
    let mut set: Vec<(usize, Option<&[&str]>, Option<&[&str]>)> = vec![];
    let k = choose(4);
    let any = || VALUES[choose(VALUES.len())];
    set.push(match choose(4) {
        0 => (k, None, None),
        1 => (k, Some(any()), None),
        2 => (k, None, Some(any())),
        _ => (k, Some(VALUES[choose(2)]), Some(VALUES[choose(2)])),
    });
    if param(0) == 1 {
        let j = (k + 1 + choose(3)) % 4;
        let v = [VALUES[2], VALUES[5]][choose(2)];
        set.push(if flag() { (j, Some(v), None) } else { (j, None, Some(v)) });
    }
    let mut conf = String::from("[lint]\nselect = [\"duplicated_arguments\", \"implicit_assignment\", \"undesirable_function\", \"unreachable_code\"]\n");
    for (i, base, ext) in &set {
        let s = &SECTIONS[*i];
        conf.push_str(&format!("[lint.{}]\n", s.rule));
        if let Some(v) = base {
            conf.push_str(&format!("{} = {}\n", s.key, toml_list(v)));
        }
        if let Some(v) = ext {
            conf.push_str(&format!("extend-{} = {}\n", s.key, toml_list(v)));
        }
    }
    mockfs::add_file("/w/jarl.toml", conf.as_bytes());
    let form = FORMS[choose(3)];
    let mut text = String::new();
    // Rows at which each rule must report.
    let mut want: [Vec<usize>; 4] = Default::default();
    for n in NAMES {
        for s in &SECTIONS {
            let row = text.matches('\n').count() + 1;
            text.push_str(&s.code.replace('@', &format!("{form}{n}")));
            for (i, r) in SECTIONS.iter().enumerate() {
                // A call is undesirable wherever it is.
                let at = match i {
                    2 if s.rule == "unreachable_code" => row + 1,
                    2 => row,
                    _ if s.rule == r.rule => row + r.row,
                    _ => continue,
                };
                let (base, ext) = set.iter().find(|x| x.0 == i).map_or((None, None), |x| (x.1, x.2));
                let named = base.unwrap_or(r.defaults).contains(&n) || ext.is_some_and(|e| e.contains(&n));
                if named == r.names_bad {
                    want[i].push(at);
                }
            }
        }
    }
    mockfs::add_file("/w/a.R", text.as_bytes());
    let r = crate::run(&["a.R", "--output-format", "concise"]);
    note(|| format!("{conf}{text}{}{}", r.out, r.err));
    if let Some((i, _, _)) = set.iter().find(|x| x.1.is_some() && x.2.is_some()) {
        check(r.code.is_none() || r.code == Some(255), "a_list_that_is_replaced_and_extended_is_an_error");
        let s = &SECTIONS[*i];
        check(r.err.contains("jarl.toml") && r.err.contains(s.rule) && r.err.contains(s.key), "the_error_says_where");
        reach("both");
        return;
    }
    check(r.code.is_some_and(|c| c < 2), "valid_options_are_accepted");
    let reps = concise(&r.out);
    for (i, s) in SECTIONS.iter().enumerate() {
        let mut got: Vec<usize> = reps.iter().filter(|x| x.rule == s.rule).map(|x| x.row).collect();
        got.sort_unstable();
        check(got == want[i], ["duplicated_arguments_follow_the_list", "implicit_assignments_follow_the_list", "undesirable_functions_are_those_listed", "stopping_functions_are_those_listed"][i]);
    }
    reach("applied");
}
/// Which assignment operator is asked for.
fn operator() {
    mockfs::reset();
    // What the file says, and the operator that means.
    const FILE: [(&str, Option<&str>); 9] = [
        ("", Some("<-")),
        ("assignment = \"<-\"\n", Some("<-")),
        ("assignment = \"=\"\n", Some("=")),
        ("[lint.assignment]\n", Some("<-")),
        ("[lint.assignment]\noperator = \"<-\"\n", Some("<-")),
        ("[lint.assignment]\noperator = \"=\"\n", Some("=")),
        ("assignment = \"->\"\n", None),
        ("[lint.assignment]\noperator = \"==\"\n", None),
        ("[lint.assignment]\noperator = \"\"\n", None),
    ];
    const FLAG: [(&[&str], Option<&str>); 4] = [(&[], Some("")), (&["--assignment", "<-"], Some("<-")), (&["--assignment", "="], Some("=")), (&["--assignment", "<<-"], None)];
    let (file, f) = FILE[choose(FILE.len())];
    let (args, c) = FLAG[choose(FLAG.len())];
    mockfs::add_file("/w/jarl.toml", format!("[lint]\nselect = [\"assignment\"]\n{file}").as_bytes());
    mockfs::add_file("/w/a.R", b"x <- 1\ny = 2\n3 -> z\nf(a = 4)\nw <<- 5\nfunction(b = 6) b\nx == 7\n8 ->> v\n");
    let json = flag();
    let mut a = vec!["a.R", "--output-format", if json { "json" } else { "concise" }];
    a.extend_from_slice(args);
    let r = crate::run(&a);
    note(|| format!("{file}{args:?}{}{}", r.out, r.err));
    let (Some(f), Some(c)) = (f, c) else {
        check(r.code.is_none() || r.code == Some(255), "an_unknown_operator_is_an_error");
        check(!r.out.contains("assignment"), "nothing_is_reported_with_an_unknown_operator");
        reach("rejected");
        return;
    };
    let op = if c.is_empty() { f } else { c };
    let want = if op == "<-" { [2, 3] } else { [1, 3] };
    let got: Vec<usize> = if json {
        let v: serde_json::Value = serde_json::from_str(&r.out).unwrap();
        v["diagnostics"].as_array().unwrap().iter().map(|d| d["location"]["row"].as_u64().unwrap() as usize).collect()
    } else {
        concise(&r.out).iter().map(|x| x.row).collect()
    };
    check(got == want, "the_other_operators_are_reported");
    check(r.code == Some(1), "they_make_the_status");
    if !json {
        check(r.out.contains("Argument `assignment` in `[lint]` is deprecated") == file.starts_with("assignment"), "the_old_form_is_called_deprecated");
        check(r.out.contains("`--assignment` is deprecated") == !args.is_empty(), "the_old_argument_is_called_deprecated");
    }
    reach("applied");
}
/// Keys with a typo: the section, and the keys it knows.
const KEYS: [(&str, &[&str], &str); 7] = [
    ("[lint]\n", &["select", "extend-select", "ignore", "fixable", "unfixable", "include", "exclude"], "[]"),
    ("[lint]\n", &["default-exclude"], "true"),
    ("[lint.duplicated_arguments]\n", &["skipped-functions", "extend-skipped-functions"], "[]"),
    ("[lint.implicit_assignment]\n", &["skipped-functions", "extend-skipped-functions"], "[]"),
    ("[lint.undesirable_function]\n", &["functions", "extend-functions"], "[]"),
    ("[lint.unreachable_code]\n", &["stopping-functions", "extend-stopping-functions"], "[]"),
    ("[lint.unused_function]\n", &["threshold-ignore"], "3"),
];
fn typo() {
    mockfs::reset();
    let (section, keys, value) = KEYS[choose(KEYS.len())];
    let key = keys[choose(keys.len())];
    let mut k = key.as_bytes().to_vec();
    // One character is another, missing, or there is one too many.
    let i = choose(k.len() + 1);
    match choose(3) {
        0 if i < k.len() => k[i] = set(b"abesuxSE-_2"),
        1 if i < k.len() => {
            k.remove(i);
        }
        _ => k.insert(i, set(b"sx-_N")),
    }
    let k = String::from_utf8(k).unwrap();
    mockfs::add_file("/w/jarl.toml", format!("{section}{k} = {value}\n").as_bytes());
    mockfs::add_file("/w/a.R", b"any(is.na(x))\n");
    let r = crate::run(&["a.R", "--output-format", "concise"]);
    note(|| format!("{section}{k} {}{}", r.out, r.err));
    if keys.contains(&k.as_str()) {
        check(r.code.is_some_and(|c| c < 2), "known_keys_are_accepted");
        reach("known");
    } else {
        check(r.code.is_none() || r.code == Some(255), "an_unknown_key_is_an_error");
        check(!r.out.contains("any_is_na"), "nothing_is_checked_with_an_unknown_key");
        check(r.err.contains("jarl.toml") && r.err.contains(&k), "the_error_names_the_key");
        reach("unknown");
    }
}
/// Files that are no configuration, and some that are.
const ODD: [(&[u8], bool); 31] = [
    (b"", true),
    (b"# nothing\n", true),
    (b"[lint]\n", true),
    (b"lint = {}\n", true),
    (b"lint.select = ['ALL']\n", true),
    (b"[lint]\nselect = [\"any_is_na\",]\r\n", true),
    (b"[lint]\nassignment = { operator = '=' }\n", true),
    (b"[lint]\nunused_function = { skipped-functions = ['^a'], threshold-ignore = 0 }\n", true),
    (b"[format]\n", false),
    (b"select = [\"any_is_na\"]\n", false),
    (b"[lints]\nselect = [\"any_is_na\"]\n", false),
    (b"[lint.any_is_na]\n", false),
    (b"[lint]\n[lint]\n", false),
    (b"[lint\n", false),
    (b"[lint]\nselect = \"any_is_na\"\n", false),
    (b"[lint]\nselect = [1]\n", false),
    (b"[lint]\nignore = true\n", false),
    (b"[lint]\ndefault-exclude = \"true\"\n", false),
    (b"[lint]\ndefault_exclude = true\n", false),
    (b"[lint]\nextend_select = []\n", false),
    (b"[lint]\nassignment = 1\n", false),
    (b"[lint]\nassignment = [\"=\"]\n", false),
    (b"[lint]\nassignment = { op = '=' }\n", false),
    (b"[lint.unused_function]\nthreshold-ignore = -1\n", false),
    (b"[lint.unused_function]\nthreshold-ignore = 1.5\n", false),
    (b"[lint.unused_function]\nskipped-functions = [\"a(\"]\n", false),
    (b"[lint.unused_function]\nextend-skipped-functions = [\"a\"]\n", false),
    (b"[lint.undesirable_function]\nfunctions = \"debug\"\n", false),
    (b"[lint.undesirable-function]\nfunctions = [\"debug\"]\n", false),
    (b"[lint.unreachable_code]\nskipped-functions = [\"debug\"]\n", false),
    (b"[lint]\n# \xe9\n", false),
];
fn odd() {
    mockfs::reset();
    let (conf, ok) = ODD[choose(ODD.len())];
    // Where it is, and whether it is the hidden one.
    let dir = ["/w", "/w/p", "/home/u/.config/jarl"][choose(3)];
    let name = ["jarl.toml", ".jarl.toml"][choose(2)];
    let at = format!("{dir}/{name}");
    mockfs::add_file(&at, conf);
    let nested = flag();
    if nested {
        mockfs::add_file("/w/p/R/jarl.toml", b"[lint]\nselect = [\"any_is_na\"]\n");
    }
    let denied = ok && flag();
    if denied {
        unsafe { mockfs::DENIED.push(at.clone()) };
    }
    mockfs::add_file("/w/p/R/a.R", b"any(is.na(x))\n");
    let arg = ["p/R/a.R", "p", "."][choose(3)];
    let r = crate::run(&[arg, "--output-format", "concise"]);
    note(|| format!("{at} {} {arg} {}{}", String::from_utf8_lossy(conf), r.out, r.err));
    if ok && !denied {
        check(r.code == Some(1) && r.out.contains("any_is_na"), "valid_configurations_are_accepted");
        reach("accepted");
    } else if r.code == Some(1) {
        // It may not be read where there is a closer one.
        check(nested, "an_invalid_configuration_is_an_error");
        check(r.out.contains("any_is_na"), "the_other_configuration_applies");
        reach("unread");
    } else {
        check(r.code.is_none() || r.code == Some(255), "an_invalid_configuration_is_an_error");
        check(!r.out.contains("any_is_na"), "nothing_is_checked_with_an_invalid_configuration");
        check(r.err.contains(name), "the_error_names_the_file");
        reach("rejected");
    }
}
pub fn run(i: u32) {
    match i {
        50 => lists(),
        51 => operator(),
        52 => typo(),
        53 => odd(),
        _ => {}
    }
}
