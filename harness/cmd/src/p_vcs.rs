//! `jarl check --fix` over several configurations and repositories.
use crate::rt::*;
use crate::*;
use git2::{Entry, Repo, Status};

const FILES: [&str; 4] = ["a.R", "p/b.R", "p/sub/c.R", "o/d.R"];
const TEXT: &str = "any(is.na(x))\n";
static mut HEAD: Vec<(String, Vec<u8>)> = Vec::new();
fn live(root: &str) -> Vec<Entry> {
    let mut v = Vec::new();
    for n in unsafe { &mockfs::NODES } {
        let inner = unsafe { &*&raw const git2::REPOS }.iter().any(|r| r.root.len() > root.len() && n.path.starts_with(&format!("{}/", r.root)));
        let Some(rel) = n.path.strip_prefix(root).and_then(|r| r.strip_prefix('/')) else { continue };
        if n.dir || inner {
            continue;
        }
        let status = match unsafe { &*&raw const HEAD }.iter().find(|h| h.0 == n.path) {
            None => Status::WT_NEW,
            Some(h) if h.1 == n.data => continue,
            Some(_) => Status::WT_MODIFIED,
        };
        v.push(Entry { path: rel.as_bytes().to_vec(), status });
    }
    v
}
fn repositories() {
    mockfs::reset();
    unsafe {
        git2::LIVE = Some(live);
        HEAD.clear();
    }
    git2::repos().clear();
    for f in FILES {
        mockfs::add_file(&format!("/w/{f}"), TEXT.as_bytes());
    }
    for (i, d) in ["", "p/", "p/sub/", "o/"].iter().enumerate() {
        if i == 0 || flag() {
            mockfs::add_file(&format!("/w/{d}jarl.toml"), b"[lint]\nselect = [\"any_is_na\"]\n");
        }
    }
    let layouts: [&[&str]; 5] = [&["/w"], &["/w/p", "/w/o"], &["/w", "/w/p"], &[], &["/w", "/w/p/sub"]];
    for r in layouts[choose(5)] {
        git2::repos().push(Repo { root: r.to_string(), entries: vec![] });
    }
    // One file may have been changed since the last commit.
    let changed = choose(4);
    for n in unsafe { &mockfs::NODES } {
        if !n.dir && (changed == 0 || n.path != ["", "/w/a.R", "/w/p/sub/c.R", "/w/o/d.R"][changed]) {
            unsafe { HEAD.push((n.path.clone(), n.data.clone())) };
        }
    }
    if changed == 2 {
        unsafe { HEAD.push(("/w/p/sub/c.R".into(), b"".to_vec())) };
    }
    let targets: [&[&str]; 4] = [&["."], &["p", "o"], &["p/sub/c.R", "p/b.R"], &["o", "p/sub"]];
    let t = choose(4);
    let sel: Vec<&str> = FILES.iter().copied().filter(|f| targets[t].iter().any(|d| *d == "." || f == d || f.starts_with(&format!("{d}/")))).collect();
    let mut args = targets[t].to_vec();
    args.push(["--fix", "--unsafe-fixes", "--fix-only"][choose(3)]);
    let (dirty, no_vcs) = (flag(), flag());
    if dirty {
        args.push("--allow-dirty");
    }
    if no_vcs {
        args.push("--allow-no-vcs");
    }
    let repo = |f: &str| git2::repos().iter().filter(|r| format!("/w/{f}").starts_with(&format!("{}/", r.root))).map(|r| r.root.clone()).max_by_key(|r| r.len());
    let covered = sel.iter().all(|f| repo(f).is_some());
    let clean = sel.iter().all(|f| repo(f).is_none_or(|r| live(&r).is_empty()));
    let r = crate::run(&args);
    note(|| format!("{args:?} covered {covered} clean {clean} {}\n{}", r.out, r.err));
    let may = no_vcs || covered && (dirty || clean);
    for f in FILES {
        let now = mockfs::file(&format!("/w/{f}")).unwrap();
        if may && sel.contains(&f) {
            check(now == b"anyNA(x)\n", "files_under_version_control_are_fixed");
        } else {
            check(now == TEXT.as_bytes(), "no_file_is_touched_unless_version_control_covers_it");
        }
    }
    if may {
        check(r.code == Some(0), "no_error_when_fixing_is_allowed");
        reach("fixed");
    } else {
        check(r.code == Some(255) && !r.err.is_empty(), "refusing_to_fix_is_an_error");
        reach("refused");
    }
}
pub fn run(i: u32) {
    match i {
        30 => repositories(),
        _ => {}
    }
}
