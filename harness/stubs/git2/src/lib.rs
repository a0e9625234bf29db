//! Stand-in: repositories and their status are set by the harness.
#![allow(static_mut_refs)]
use std::path::{Path, PathBuf};
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("git error")
    }
}
impl std::error::Error for Error {}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Status(pub u32);
impl Status {
    pub const CURRENT: Status = Status(0);
    pub const INDEX_NEW: Status = Status(1);
    pub const INDEX_MODIFIED: Status = Status(2);
    pub const INDEX_DELETED: Status = Status(4);
    pub const WT_NEW: Status = Status(1 << 7);
    pub const WT_MODIFIED: Status = Status(1 << 8);
    pub const WT_DELETED: Status = Status(1 << 9);
    pub const INDEX_RENAMED: Status = Status(8);
    pub const INDEX_TYPECHANGE: Status = Status(16);
    pub const WT_TYPECHANGE: Status = Status(1 << 10);
    pub const WT_RENAMED: Status = Status(1 << 11);
    pub const WT_UNREADABLE: Status = Status(1 << 12);
    pub const IGNORED: Status = Status(1 << 14);
    pub const CONFLICTED: Status = Status(1 << 15);
    pub fn is_index_new(self) -> bool {
        self.contains(Status::INDEX_NEW)
    }
    pub fn is_index_modified(self) -> bool {
        self.contains(Status::INDEX_MODIFIED)
    }
    pub fn is_index_deleted(self) -> bool {
        self.contains(Status::INDEX_DELETED)
    }
    pub fn is_index_renamed(self) -> bool {
        self.contains(Status::INDEX_RENAMED)
    }
    pub fn is_index_typechange(self) -> bool {
        self.contains(Status::INDEX_TYPECHANGE)
    }
    pub fn is_wt_new(self) -> bool {
        self.contains(Status::WT_NEW)
    }
    pub fn is_wt_modified(self) -> bool {
        self.contains(Status::WT_MODIFIED)
    }
    pub fn is_wt_deleted(self) -> bool {
        self.contains(Status::WT_DELETED)
    }
    pub fn is_wt_renamed(self) -> bool {
        self.contains(Status::WT_RENAMED)
    }
    pub fn is_wt_typechange(self) -> bool {
        self.contains(Status::WT_TYPECHANGE)
    }
    pub fn is_ignored(self) -> bool {
        self.contains(Status::IGNORED)
    }
    pub fn is_conflicted(self) -> bool {
        self.contains(Status::CONFLICTED)
    }
    pub fn all() -> Status {
        Status(0xdf9f)
    }
    pub fn empty() -> Status {
        Status(0)
    }
    pub fn from_bits_truncate(b: u32) -> Status {
        Status(b & 0xdf9f)
    }
    pub fn insert(&mut self, o: Status) {
        self.0 |= o.0
    }
    pub fn remove(&mut self, o: Status) {
        self.0 &= !o.0
    }
    pub fn contains(self, o: Status) -> bool {
        self.0 & o.0 == o.0
    }
    pub fn intersects(self, o: Status) -> bool {
        self.0 & o.0 != 0
    }
    pub fn is_empty(self) -> bool {
        self.0 == 0
    }
    pub fn bits(self) -> u32 {
        self.0
    }
}
impl std::ops::BitOr for Status {
    type Output = Status;
    fn bitor(self, o: Status) -> Status {
        Status(self.0 | o.0)
    }
}
impl std::ops::BitAnd for Status {
    type Output = Status;
    fn bitand(self, o: Status) -> Status {
        Status(self.0 & o.0)
    }
}
impl std::ops::BitOrAssign for Status {
    fn bitor_assign(&mut self, o: Status) {
        self.0 |= o.0
    }
}
impl std::ops::Sub for Status {
    type Output = Status;
    fn sub(self, o: Status) -> Status {
        Status(self.0 & !o.0)
    }
}
impl std::ops::Not for Status {
    type Output = Status;
    fn not(self) -> Status {
        Status(!self.0 & 0xdf9f)
    }
}
#[derive(Clone)]
pub struct Entry {
    pub path: Vec<u8>,
    pub status: Status,
}
#[derive(Clone)]
pub struct Repo {
    /// Working directory, absolute.
    pub root: String,
    pub entries: Vec<Entry>,
}
pub static mut REPOS: Vec<Repo> = Vec::new();
/// Looks up a repository's entries at the time they are asked for.
pub static mut LIVE: Option<fn(&str) -> Vec<Entry>> = None;
pub static mut CWD: &str = "/w";
pub fn repos() -> &'static mut Vec<Repo> {
    unsafe { &mut REPOS }
}
pub struct Repository {
    i: usize,
    git: PathBuf,
    root: PathBuf,
}
impl Repository {
    /// The innermost repository that contains the path.
    pub fn discover<P: AsRef<Path>>(p: P) -> Result<Repository, Error> {
        let p = p.as_ref();
        let full = if p.is_absolute() { p.to_path_buf() } else { Path::new(unsafe { CWD }).join(p) };
        let mut best: Option<usize> = None;
        for (i, r) in repos().iter().enumerate() {
            if full.starts_with(&r.root) && best.is_none_or(|b| repos()[b].root.len() < r.root.len()) {
                best = Some(i);
            }
        }
        let i = best.ok_or(Error)?;
        let root = PathBuf::from(&repos()[i].root);
        Ok(Repository { i, git: root.join(".git/"), root })
    }
    pub fn open<P: AsRef<Path>>(p: P) -> Result<Repository, Error> {
        Self::discover(p)
    }
    pub fn path(&self) -> &Path {
        &self.git
    }
    pub fn workdir(&self) -> Option<&Path> {
        Some(&self.root)
    }
    pub fn is_bare(&self) -> bool {
        false
    }
    pub fn statuses(&self, o: Option<&mut StatusOptions>) -> Result<Statuses, Error> {
        let (mut ignored, mut untracked) = (true, true);
        if let Some(o) = o {
            ignored = o.ignored;
            untracked = o.untracked;
        }
        let entries = match unsafe { LIVE } {
            Some(f) => f(&repos()[self.i].root),
            None => repos()[self.i].entries.clone(),
        };
        let v = entries.iter().filter(|e| (ignored || e.status != Status::IGNORED) && (untracked || e.status != Status::WT_NEW)).cloned().collect();
        Ok(Statuses(v))
    }
    pub fn status_file(&self, p: &Path) -> Result<Status, Error> {
        use std::os::unix::ffi::OsStrExt;
        let entries = match unsafe { LIVE } {
            Some(f) => f(&repos()[self.i].root),
            None => repos()[self.i].entries.clone(),
        };
        entries.iter().find(|e| e.path == p.as_os_str().as_bytes()).map(|e| e.status).ok_or(Error)
    }
}
#[derive(Default)]
pub struct StatusOptions {
    ignored: bool,
    untracked: bool,
}
impl StatusOptions {
    pub fn new() -> Self {
        StatusOptions { ignored: false, untracked: false }
    }
    pub fn include_ignored(&mut self, b: bool) -> &mut Self {
        self.ignored = b;
        self
    }
    pub fn include_untracked(&mut self, b: bool) -> &mut Self {
        self.untracked = b;
        self
    }
    pub fn recurse_untracked_dirs(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn renames_head_to_index(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn renames_index_to_workdir(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn exclude_submodules(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn update_index(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn no_refresh(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn recurse_ignored_dirs(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn show(&mut self, _: StatusShow) -> &mut Self {
        self
    }
    pub fn include_unmodified(&mut self, _: bool) -> &mut Self {
        self
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum StatusShow {
    Index,
    Workdir,
    IndexAndWorkdir,
}
pub struct Statuses(Vec<Entry>);
impl<'a> IntoIterator for &'a Statuses {
    type Item = StatusEntry<'a>;
    type IntoIter = std::iter::Map<std::slice::Iter<'a, Entry>, fn(&'a Entry) -> StatusEntry<'a>>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter().map(StatusEntry)
    }
}
impl Statuses {
    pub fn iter(&self) -> impl Iterator<Item = StatusEntry<'_>> {
        self.0.iter().map(StatusEntry)
    }
    pub fn get(&self, i: usize) -> Option<StatusEntry<'_>> {
        self.0.get(i).map(StatusEntry)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
pub struct StatusEntry<'a>(&'a Entry);
impl StatusEntry<'_> {
    /// None if the path is not UTF-8.
    pub fn path(&self) -> Option<&str> {
        std::str::from_utf8(&self.0.path).ok()
    }
    pub fn path_bytes(&self) -> &[u8] {
        &self.0.path
    }
    pub fn status(&self) -> Status {
        self.0.status
    }
}
