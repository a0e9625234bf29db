//! Stand-in for air's `fs` crate.
use path_absolutize::{path_dedot, Absolutize};
use std::path::{Path, PathBuf};
pub fn normalize_path<P: AsRef<Path>>(path: P) -> PathBuf {
    let path = path.as_ref();
    match path.absolutize() {
        Ok(p) => p.to_path_buf(),
        Err(_) => path.to_path_buf(),
    }
}
pub fn relativize_path<P: AsRef<Path>>(path: P) -> String {
    let path = path.as_ref();
    let cwd: &Path = path_dedot::CWD.as_path();
    if let Ok(path) = path.strip_prefix(cwd) {
        return format!("{}", path.display());
    }
    format!("{}", path.display())
}
