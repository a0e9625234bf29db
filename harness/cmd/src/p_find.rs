//! Which files are checked, and with which configuration.
use crate::rt::*;
use crate::*;

const FILES: [&str; 13] = [
    "p/a.R", "p/R/b.R", "p/R/cpp11.R", "p/tests/c.R", "p/tests/deep/x.r", "p/sub/d.R", "p/sub/tests/e.Rmd", "p/sub/renv/f.R", "p/.hid/g.R", "p/note.txt", "p/Rfile", "o/h.R", "o/import-standalone-z.R",
];
const RULES: [&str; 4] = ["any_is_na", "any_duplicated", "length_levels", "equals_na"];
const CODE: &str = "any(is.na(x))\nany(duplicated(x))\nlength(levels(x))\nx == NA\n";
/// Where a configuration may be; it selects the rule of the same number.
const DIRS: [&str; 4] = ["", "p", "p/sub", "/home/u/.config/jarl"];
const ARGS: [&[&str]; 9] = [&["."], &["p"], &["p/sub"], &["o", "p/sub"], &["p", "o"], &["p/sub/d.R", "p/a.R"], &["p/a.R", "o/h.R", "p/sub/d.R"], &["/w/p/../p/sub/", "./o"], &["p/R", "o"]];
const PATTERNS: [&str; 9] = ["tests/", "b.R", "R/b.R", "sub/", "d.*", "**/*.Rmd", "tests/c.R", "*.R", "R"];

fn seg(g: &[u8], s: &[u8]) -> bool {
    match g.first() {
        None => s.is_empty(),
        Some(b'*') => (0..=s.len()).any(|i| seg(&g[1..], &s[i..])),
        Some(c) => s.first() == Some(c) && seg(&g[1..], &s[1..]),
    }
}
/// Whether a pattern of a directory's configuration names the file, or a
/// directory it is in, as in a .gitignore.
fn names(pattern: &str, file: &str) -> bool {
    let (p, dir_only) = match pattern.strip_suffix('/') {
        Some(p) => (p, true),
        None => (pattern, false),
    };
    let parts: Vec<&str> = file.split('/').collect();
    let last = parts.len() - dir_only as usize;
    if let Some(p) = p.strip_prefix("**/") {
        return parts[..last].iter().any(|s| seg(p.as_bytes(), s.as_bytes()));
    }
    if !p.contains('/') {
        return parts[..last].iter().any(|s| seg(p.as_bytes(), s.as_bytes()));
    }
    let ps: Vec<&str> = p.split('/').collect();
    ps.len() <= last && ps.iter().zip(&parts).all(|(p, s)| seg(p.as_bytes(), s.as_bytes()))
}
const DEFAULT: [&str; 7] = [".git/", "renv/", "revdep/", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-*.R"];

fn below<'a>(dir: &str, file: &'a str) -> Option<&'a str> {
    if dir.is_empty() { Some(file) } else { file.strip_prefix(dir)?.strip_prefix('/') }
}
fn discovery() {
    mockfs::reset();
    for f in FILES {
        let text = if f.ends_with(".Rmd") { format!("```{{r}}\n{CODE}```\n") } else { CODE.to_string() };
        mockfs::add_file(&format!("/w/{f}"), text.as_bytes());
    }
    let present: Vec<bool> = match param(0) {
        0 => (0..4).map(|_| flag()).collect(),
        // A project and a part of it, or one configuration above both.
        _ => [[false, true, true, false], [true, false, false, false], [false, true, false, false], [false, false, true, false], [false, false, false, true], [true, false, true, false]][choose(6)].to_vec(),
    };
    let on: Vec<usize> = (0..4).filter(|i| present[*i]).collect();
    let args = ARGS[choose(ARGS.len())];
    let mut no_default = false;
    // One configuration may restrict its files.
    let mut exclude: [&[usize]; 4] = [&[]; 4];
    let mut include: [&[usize]; 4] = [&[]; 4];
    let mut default: [Option<bool>; 4] = [None; 4];
    let mut restricted = false;
    if param(0) == 1 {
        let k = on[choose(on.len())];
        const ONE: [&[usize]; 9] = [&[0], &[1], &[2], &[3], &[4], &[5], &[6], &[7], &[8]];
        const TWO: [&[usize]; 2] = [&[0, 1], &[5, 6]];
        const INC: [&[usize]; 7] = [&[1], &[2], &[5], &[6], &[7], &[0], &[3]];
        restricted = true;
        match choose(4) {
            0 => exclude[k] = ONE[choose(9)],
            1 => exclude[k] = TWO[choose(2)],
            2 => {
                include[k] = INC[choose(7)];
                if flag() {
                    exclude[k] = ONE[choose(3)];
                }
            }
            _ => {
                restricted = false;
                match choose(3) {
                    0 => default[k] = Some(false),
                    1 => default[k] = Some(true),
                    _ => {}
                }
                no_default = flag();
            }
        }
    }
    for &i in &on {
        let mut t = format!("[lint]\nselect = [\"{}\"]\n", RULES[i]);
        let list = |l: &[usize]| l.iter().map(|p| format!("\"{}\"", PATTERNS[*p])).collect::<Vec<_>>().join(", ");
        if !exclude[i].is_empty() {
            t.push_str(&format!("exclude = [{}]\n", list(exclude[i])));
        }
        if !include[i].is_empty() {
            t.push_str(&format!("include = [{}]\n", list(include[i])));
        }
        if let Some(d) = default[i] {
            t.push_str(&format!("default-exclude = {d}\n"));
        }
        let dir = DIRS[i];
        let dir = if dir.is_empty() { "/w" } else { dir };
        mockfs::add_file(&format!("{dir}/jarl.toml"), t.as_bytes());
    }
    let mut a = args.to_vec();
    a.extend_from_slice(&["--output-format", "concise"]);
    if no_default {
        a.push("--no-default-exclude");
    }
    let r = crate::run(&a);
    check(r.code.is_some(), "the_run_succeeds");
    let reps = concise(&r.out);
    let mut any = false;
    for f in FILES {
        // The argument this file is reached through.
        let roots: Vec<&str> = args.iter().map(|a| match *a { "." => "", "/w/p/../p/sub/" => "p/sub", "./o" => "o", a => a }).collect();
        let explicit = roots.contains(&f);
        let within: Vec<&str> = roots.iter().filter_map(|r| below(r, f)).collect();
        let closest = (0..3).rev().find(|i| present[*i] && below(DIRS[*i], f).is_some()).or(if present[3] { Some(3) } else { None });
        let ext = f.rsplit('/').next().unwrap().rsplit_once('.').map_or("", |x| x.1);
        let mut want = explicit || !within.is_empty() && ["R", "r", "Rmd"].contains(&ext) && !within.iter().all(|w| w.starts_with('.') || w.contains("/."));
        if explicit && restricted {
            // Whether exclude and include apply to files named one by one: not judged.
            continue;
        }
        // A directory with its own configuration that one further up excludes: not judged.
        if (0..3).any(|k| Some(k) != closest && closest != Some(3) && exclude[k].iter().any(|p| closest.and_then(|c| below(DIRS[k], DIRS[c])).is_some_and(|d| names(PATTERNS[*p], &format!("{d}/z"))))) {
            continue;
        }
        if let Some(k) = closest {
            // What a path in a pattern of the user's own configuration is relative to: not judged.
            if k == 3 && exclude[k].iter().chain(include[k]).any(|p| PATTERNS[*p].trim_end_matches('/').contains('/')) {
                continue;
            }
            let own = if k == 3 { f } else { below(DIRS[k], f).unwrap() };
            // A directory that is excluded, but given: not judged.
            if want && exclude[k].iter().any(|p| names(PATTERNS[*p], own)) {
                let given = roots.iter().any(|r| below(r, f).is_some_and(|rest| !exclude[k].iter().any(|p| names(PATTERNS[*p], rest))));
                if given && roots.iter().any(|r| !r.is_empty() && below(if k == 3 { "" } else { DIRS[k] }, r).is_some_and(|r| exclude[k].iter().any(|p| names(PATTERNS[*p], &format!("{r}/z"))))) {
                    continue;
                }
                want = false;
            }
            if want && !include[k].is_empty() {
                // Whether the name of a directory may be that of any further down: not judged.
                if include[k].iter().any(|p| PATTERNS[*p].ends_with('/') && names(PATTERNS[*p], own) && !own.starts_with(PATTERNS[*p])) {
                    continue;
                }
                want = include[k].iter().any(|p| names(PATTERNS[*p], own));
            }
        }
        if !explicit && !no_default && closest.and_then(|k| default[k]) != Some(false) && DEFAULT.iter().any(|p| names(p, f)) {
            want = false;
        }
        let got: Vec<&str> = reps.iter().filter(|r| r.path == f).map(|r| r.rule).collect();
        if want {
            any = true;
            check(!got.is_empty(), "a_file_that_is_not_excluded_is_checked");
            let rules: Vec<&str> = match closest {
                Some(k) => vec![RULES[k]],
                None => RULES.to_vec(),
            };
            if closest == Some(3) {
                check(got == rules, "the_users_own_configuration_applies_where_no_other_does");
                reach("user");
            } else {
                check(rules.iter().all(|r| got.iter().filter(|g| *g == r).count() == 1) && got.len() == rules.len(), "the_closest_configuration_applies");
            }
            reach(if closest.is_some() { "configured" } else { "default" });
        } else {
            check(got.is_empty(), "an_excluded_file_is_not_checked");
            reach("excluded");
        }
    }
    if any {
        check(r.code == Some(1), "violations_are_the_exit_status");
    }
}
/// What git ignores is not checked unless it is named.
fn gitignored() {
    mockfs::reset();
    unsafe { ignore::GITIGNORES = true };
    const TREE: [&str; 7] = ["a.R", "p/a.R", "p/R/b.R", "p/sub/d.R", "p/sub/R/a.R", "o/h.R", "o/h.Rmd"];
    for f in TREE {
        let text = if f.ends_with(".Rmd") { format!("```{{r}}\n{CODE}```\n") } else { CODE.to_string() };
        mockfs::add_file(&format!("/w/{f}"), text.as_bytes());
    }
    const GITS: [&[&str]; 4] = [&[""], &["p"], &["", "p"], &[]];
    let gits = GITS[choose(4)];
    for g in gits {
        mockfs::add_file(&format!("/w/{g}/.git/HEAD"), b"x");
    }
    const AT: [&str; 3] = ["", "p", "p/sub"];
    const WHAT: [&str; 7] = ["", "a.R", "R/", "sub/", "*.Rmd", "!a.R", "/o"];
    let files: [usize; 3] = [choose(7), [0, 1, 2, 3, 5][choose(5)], [0, 1, 5][choose(3)]];
    for (d, w) in AT.iter().zip(files) {
        if w > 0 {
            mockfs::add_file(&format!("/w/{d}/.gitignore"), format!("# build\n{}\n", WHAT[w]).as_bytes());
        }
    }
    let args: &[&str] = [&["."] as &[&str], &["p", "o"], &["p/a.R", "o"]][choose(3)];
    if flag() {
        mockfs::add_file("/w/jarl.toml", b"[lint]\nselect = [\"any_is_na\"]\n");
    }
    let mut a = args.to_vec();
    a.extend_from_slice(&["--output-format", "concise"]);
    let r = crate::run(&a);
    check(r.code.is_some(), "the_run_succeeds");
    let reps = concise(&r.out);
    // What is said about one path: by the innermost file that mentions it, in
    // the repository it is in.
    let said = |path: &str, dir: bool| {
        let mut above = path;
        let mut verdict = None;
        let mut repo = false;
        loop {
            above = above.rsplit_once('/').map_or("", |x| x.0);
            if let (None, Some(k)) = (verdict, AT.iter().position(|d| *d == above)) {
                let rest = below(above, path).unwrap();
                let (pat, keep) = match WHAT[files[k]].strip_prefix('!') {
                    Some(p) => (p, true),
                    None => (WHAT[files[k]], false),
                };
                let hit = match pat.strip_prefix('/') {
                    Some(p) => rest == p,
                    None => match pat.strip_suffix('/') {
                        Some(p) => dir && rest.rsplit('/').next() == Some(p),
                        None => !pat.is_empty() && rest.rsplit('/').next().is_some_and(|l| seg(pat.as_bytes(), l.as_bytes())),
                    },
                };
                if hit {
                    verdict = Some(!keep);
                }
            }
            if gits.contains(&above) {
                repo = true;
                break;
            }
            if above.is_empty() {
                break;
            }
        }
        repo && verdict == Some(true)
    };
    for f in TREE {
        let mut want = args.contains(&f);
        for root in args {
            let root = if *root == "." { "" } else { root };
            let Some(rest) = below(root, f) else { continue };
            // Every directory on the way, and the file.
            let mut ok = true;
            let skip = f.len() - rest.len();
            for (i, c) in rest.bytes().enumerate() {
                if c == b'/' && said(&f[..skip + i], true) {
                    ok = false;
                }
            }
            if ok && !said(f, false) {
                want = true;
            }
        }
        let got = reps.iter().any(|r| r.path == f);
        if want {
            check(got, "a_file_that_git_does_not_ignore_is_checked");
            reach("kept");
        } else {
            check(!got, "a_file_that_git_ignores_is_not_checked");
            reach("ignored");
        }
    }
    unsafe { ignore::GITIGNORES = false };
}
pub fn run(i: u32) {
    match i {
        0 => discovery(),
        1 => gitignored(),
        _ => {}
    }
}
