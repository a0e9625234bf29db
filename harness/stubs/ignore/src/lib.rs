//! Stand-in for the `ignore` crate: a sequential walker with hidden-file
//! skipping and override globs (gitignore syntax). `.gitignore` files are read
//! only when a harness that creates them says so (`GITIGNORES`).
use std::path::{Path, PathBuf};
pub static mut GITIGNORES: bool = false;
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Match<T> { None, Ignore(T), Whitelist(T) }
impl<T> Match<T> {
    pub fn is_ignore(&self) -> bool { matches!(self, Match::Ignore(_)) }
    pub fn is_none(&self) -> bool { matches!(self, Match::None) }
    pub fn invert(self) -> Match<T> { match self { Match::None => Match::None, Match::Ignore(t) => Match::Whitelist(t), Match::Whitelist(t) => Match::Ignore(t) } }
    pub fn inner(&self) -> Option<&T> { match self { Match::None => None, Match::Ignore(t) | Match::Whitelist(t) => Some(t) } }
    pub fn or(self, o: Self) -> Self { if self.is_none() { o } else { self } }
    pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> Match<U> { match self { Match::None => Match::None, Match::Ignore(t) => Match::Ignore(f(t)), Match::Whitelist(t) => Match::Whitelist(f(t)) } }
    pub fn is_whitelist(&self) -> bool { matches!(self, Match::Whitelist(_)) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct FileType(bool);
impl FileType { pub fn is_dir(&self) -> bool { self.0 } pub fn is_file(&self) -> bool { !self.0 } pub fn is_symlink(&self) -> bool { false } }
#[derive(Clone, Debug)]
pub struct DirEntry { path: PathBuf, depth: usize, dir: bool }
impl DirEntry {
    pub fn path(&self) -> &Path { &self.path }
    pub fn into_path(self) -> PathBuf { self.path }
    pub fn depth(&self) -> usize { self.depth }
    pub fn file_name(&self) -> &std::ffi::OsStr { self.path.file_name().unwrap_or(self.path.as_os_str()) }
    pub fn path_is_symlink(&self) -> bool { false }
    pub fn is_stdin(&self) -> bool { false }
    pub fn error(&self) -> Option<&Error> { None }
    pub fn metadata(&self) -> Result<std::fs::Metadata, Error> { std::fs::metadata(&self.path).map_err(|e| Error(e.to_string())) }
    pub fn file_type(&self) -> Option<FileType> { Some(FileType(self.dir)) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WalkState { Continue, Skip, Quit }
pub trait ParallelVisitor: Send { fn visit(&mut self, entry: Result<DirEntry, Error>) -> WalkState; }
impl WalkState { pub fn is_continue(&self) -> bool { *self == WalkState::Continue } pub fn is_quit(&self) -> bool { *self == WalkState::Quit } }
pub trait ParallelVisitorBuilder<'s> { fn build(&mut self) -> Box<dyn ParallelVisitor + 's>; }

pub mod overrides {
    use super::*;
    /// One parsed pattern.
    #[derive(Clone, Debug)]
    struct Glob { whitelist: bool, dir_only: bool, anchored: bool, segs: Vec<String> }
    #[derive(Clone, Debug, Default)]
    pub struct Override { root: PathBuf, globs: Vec<Glob>, whites: usize }
    pub struct OverrideBuilder { o: Override }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct GlobRef;
    impl OverrideBuilder {
        pub fn new<P: AsRef<Path>>(root: P) -> Self {
            let r = root.as_ref();
            let r = r.strip_prefix("./").unwrap_or(r);
            OverrideBuilder { o: Override { root: r.to_path_buf(), globs: Vec::new(), whites: 0 } }
        }
        pub fn add(&mut self, glob: &str) -> Result<&mut Self, Error> {
            let mut g = glob.trim_end();
            // In an override `!` excludes and a plain pattern includes.
            let mut whitelist = true;
            if let Some(r) = g.strip_prefix('!') { whitelist = false; g = r; }
            let mut anchored = false;
            if let Some(r) = g.strip_prefix('/') { anchored = true; g = r; }
            let mut dir_only = false;
            if let Some(r) = g.strip_suffix('/') { dir_only = true; g = r; }
            if g.is_empty() { return Ok(self); }
            if g.contains('/') { anchored = true; }
            self.o.whites += whitelist as usize;
            for g in braces(g) {
                self.o.globs.push(Glob { whitelist, dir_only, anchored, segs: g.split('/').map(String::from).collect() });
            }
            Ok(self)
        }
        pub fn case_insensitive(&mut self, _: bool) -> Result<&mut Self, Error> { Ok(self) }
        pub fn build(&self) -> Result<Override, Error> { Ok(self.o.clone()) }
    }
    impl Override {
        pub fn empty() -> Override { Override::default() }
        pub fn is_empty(&self) -> bool { self.globs.is_empty() }
        pub(crate) fn without_default(mut self) -> Self { self.whites = 0; self }
        pub fn path(&self) -> &Path { &self.root }
        pub fn num_ignores(&self) -> u64 { self.globs.iter().filter(|g| !g.whitelist).count() as u64 }
        pub fn num_whitelists(&self) -> u64 { self.whites as u64 }
        pub fn matched<'a, P: AsRef<Path>>(&'a self, path: P, is_dir: bool) -> Match<GlobRef> {
            if self.globs.is_empty() { return Match::None; }
            let mut p = path.as_ref();
            if let Ok(q) = p.strip_prefix("./") { p = q; }
            if let Ok(q) = p.strip_prefix(&self.root) { p = q; }
            let s = p.to_str().unwrap_or("");
            let segs: Vec<&str> = s.split('/').filter(|x| !x.is_empty()).collect();
            for g in self.globs.iter().rev() {
                if g.dir_only && !is_dir { continue; }
                let hit = if g.anchored {
                    let gs: Vec<&str> = g.segs.iter().map(|x| x.as_str()).collect();
                    m_segs(&gs, &segs)
                } else {
                    segs.last().is_some_and(|l| m_seg(g.segs[0].as_bytes(), l.as_bytes()))
                };
                if hit { return if g.whitelist { Match::Whitelist(GlobRef) } else { Match::Ignore(GlobRef) }; }
            }
            if self.whites > 0 && !is_dir { return Match::Ignore(GlobRef); }
            Match::None
        }
    }
    /// `{a,b}` alternatives (not nested).
    fn braces(g: &str) -> Vec<String> {
        if let Some(o) = g.find('{') {
            if let Some(c) = g[o..].find('}') {
                let (pre, mid, post) = (&g[..o], &g[o + 1..o + c], &g[o + c + 1..]);
                return mid.split(',').flat_map(|m| braces(&format!("{pre}{m}{post}"))).collect();
            }
        }
        vec![g.to_string()]
    }
    fn m_segs(g: &[&str], s: &[&str]) -> bool {
        match g.split_first() {
            None => s.is_empty(),
            Some((&"**", rest)) => {
                if rest.is_empty() { return !s.is_empty(); }
                (0..=s.len()).any(|i| m_segs(rest, &s[i..]))
            }
            Some((h, rest)) => match s.split_first() {
                Some((x, more)) => m_seg(h.as_bytes(), x.as_bytes()) && m_segs(rest, more),
                None => false,
            },
        }
    }
    fn m_seg(g: &[u8], s: &[u8]) -> bool {
        match g.split_first() {
            None => s.is_empty(),
            Some((b'*', rest)) => (0..=s.len()).any(|i| m_seg(rest, &s[i..])),
            Some((b'?', rest)) => !s.is_empty() && m_seg(rest, &s[1..]),
            Some((c, rest)) => s.first() == Some(c) && m_seg(rest, &s[1..]),
        }
    }
}

type Filter = std::sync::Arc<dyn Fn(&DirEntry) -> bool + Send + Sync + 'static>;
#[derive(Clone)]
pub struct WalkBuilder { roots: Vec<PathBuf>, hidden: bool, git: bool, parents: bool, require_git: bool, max_depth: Option<usize>, overrides: overrides::Override, filter: Option<Filter> }
macro_rules! unused { ($($n:ident: $t:ty),*) => { $(pub fn $n(&mut self, _: $t) -> &mut Self { self })* } }
impl WalkBuilder {
    pub fn new<P: AsRef<Path>>(p: P) -> Self { WalkBuilder { roots: vec![p.as_ref().to_path_buf()], hidden: true, git: true, parents: true, require_git: true, max_depth: None, overrides: Default::default(), filter: None } }
    pub fn add<P: AsRef<Path>>(&mut self, p: P) -> &mut Self { self.roots.push(p.as_ref().to_path_buf()); self }
    pub fn hidden(&mut self, y: bool) -> &mut Self { self.hidden = y; self }
    pub fn parents(&mut self, y: bool) -> &mut Self { self.parents = y; self }
    pub fn git_ignore(&mut self, y: bool) -> &mut Self { self.git = y; self }
    pub fn require_git(&mut self, y: bool) -> &mut Self { self.require_git = y; self }
    pub fn max_depth(&mut self, d: Option<usize>) -> &mut Self { self.max_depth = d; self }
    pub fn standard_filters(&mut self, y: bool) -> &mut Self { self.hidden(y).parents(y).git_ignore(y) }
    unused!(ignore: bool, git_global: bool, git_exclude: bool, threads: usize, follow_links: bool, same_file_system: bool, max_filesize: Option<u64>, skip_stdout: bool, ignore_case_insensitive: bool);
    pub fn sort_by_file_name<F>(&mut self, _: F) -> &mut Self where F: Fn(&std::ffi::OsStr, &std::ffi::OsStr) -> std::cmp::Ordering + Send + Sync + 'static { self }
    pub fn sort_by_file_path<F>(&mut self, _: F) -> &mut Self where F: Fn(&Path, &Path) -> std::cmp::Ordering + Send + Sync + 'static { self }
    pub fn overrides(&mut self, o: overrides::Override) -> &mut Self { self.overrides = o; self }
    pub fn filter_entry<P>(&mut self, filter: P) -> &mut Self where P: Fn(&DirEntry) -> bool + Send + Sync + 'static { self.filter = Some(std::sync::Arc::new(filter)); self }
    pub fn build(&self) -> Walk { Walk { w: self.clone(), stack: self.roots.iter().rev().map(|r| (r.clone(), 0)).collect() } }
    pub fn build_parallel(&self) -> WalkParallel { WalkParallel { w: self.clone() } }
    /// What the `.gitignore` files of the directories around an entry say; the
    /// innermost one that mentions it wins.
    fn git_ignored(&self, path: &Path, depth: usize, dir: bool) -> bool {
        let mut said = None;
        let mut repo = !self.require_git;
        for (up, d) in path.ancestors().skip(1).enumerate() {
            if said.is_none() && (self.parents || up < depth) {
                if let Ok(text) = std::fs::read_to_string(d.join(".gitignore")) {
                    let mut b = overrides::OverrideBuilder::new(d);
                    for l in text.lines() {
                        if l.is_empty() || l.starts_with('#') { continue; }
                        let _ = match l.strip_prefix('!') { Some(r) => b.add(r), None => b.add(&format!("!{l}")) };
                    }
                    match b.build().unwrap().without_default().matched(path, dir) {
                        Match::None => {}
                        m => said = Some(m.is_ignore()),
                    }
                }
            }
            if d.join(".git").exists() { repo = true; break; }
        }
        repo && said == Some(true)
    }
}
pub struct Walk { w: WalkBuilder, stack: Vec<(PathBuf, usize)> }
impl Walk { pub fn new<P: AsRef<Path>>(p: P) -> Walk { WalkBuilder::new(p).build() } }
impl Iterator for Walk {
    type Item = Result<DirEntry, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            let (path, depth) = self.stack.pop()?;
            let dir = path.is_dir();
            if !dir && !path.exists() { return Some(Err(Error(format!("{}: not found", path.display())))); }
            if depth > 0 {
                let hid = path.file_name().and_then(|n| n.to_str()).is_some_and(|n| n.starts_with('.'));
                let m = self.w.overrides.matched(&path, dir);
                if m.is_ignore() || (self.w.hidden && hid && !m.is_whitelist()) { continue; }
                if self.w.git && unsafe { GITIGNORES } && !m.is_whitelist() && self.w.git_ignored(&path, depth, dir) { continue; }
                if let Some(f) = &self.w.filter { if !f(&DirEntry { path: path.clone(), depth, dir }) { continue; } }
            }
            if dir && self.w.max_depth.is_none_or(|m| depth < m) {
                match std::fs::read_dir(&path) {
                    Ok(rd) => {
                        let mut v: Vec<PathBuf> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
                        v.sort();
                        for p in v.into_iter().rev() { self.stack.push((p, depth + 1)); }
                    }
                    Err(e) => return Some(Err(Error(e.to_string()))),
                }
            }
            return Some(Ok(DirEntry { path, depth, dir }));
        }
    }
}
pub struct WalkParallel { w: WalkBuilder }
type Visit<'s> = Box<dyn FnMut(Result<DirEntry, Error>) -> WalkState + Send + 's>;
impl WalkParallel {
    pub fn run<'s, F>(self, mut mk: F) where F: FnMut() -> Visit<'s> {
        let mut v = mk();
        walk(&self.w, &mut |e| v(e));
    }
    pub fn visit(self, b: &mut dyn ParallelVisitorBuilder<'_>) {
        let mut v = b.build();
        walk(&self.w, &mut |e| v.visit(e));
    }
}
fn walk(w: &WalkBuilder, f: &mut dyn FnMut(Result<DirEntry, Error>) -> WalkState) {
    let mut it = w.build();
    while let Some(e) = it.next() {
        let at = e.as_ref().ok().filter(|e| e.dir).map(|e| e.depth);
        match f(e) {
            WalkState::Continue => {}
            WalkState::Quit => break,
            // The children of a directory lie on top of the stack.
            WalkState::Skip => {
                if let Some(d) = at {
                    while it.stack.last().is_some_and(|(_, k)| *k > d) { it.stack.pop(); }
                }
            }
        }
    }
}
