//! Stand-in for air's `workspace` crate: path resolution only.
pub mod resolve {
    use std::path::{Path, PathBuf};
    #[derive(Debug)]
    pub struct PathResolver<T> {
        fallback: T,
        items: Vec<PathResolverItem<T>>,
    }
    #[derive(Debug)]
    pub struct PathResolverItem<T> {
        path: PathBuf,
        value: T,
    }
    impl<T> PathResolverItem<T> {
        pub fn path(&self) -> &Path {
            &self.path
        }
        pub fn value(&self) -> &T {
            &self.value
        }
    }
    impl<T> PathResolver<T> {
        pub fn new(fallback: T) -> Self {
            Self { fallback, items: Vec::new() }
        }
        pub fn fallback(&self) -> &T {
            &self.fallback
        }
        pub fn items(&self) -> &Vec<PathResolverItem<T>> {
            &self.items
        }
        /// Directories are kept in path order; adding one again replaces its value.
        pub fn add(&mut self, path: &Path, value: T) -> Option<T> {
            match self.items.iter().position(|i| i.path == path) {
                Some(i) => Some(std::mem::replace(&mut self.items[i].value, value)),
                None => {
                    let at = self.items.iter().position(|i| i.path.as_path() > path).unwrap_or(self.items.len());
                    self.items.insert(at, PathResolverItem { path: path.to_path_buf(), value });
                    None
                }
            }
        }
        pub fn resolve(&self, path: &Path) -> Option<&PathResolverItem<T>> {
            self.items.iter().rev().find(|i| path.starts_with(&i.path))
        }
        pub fn resolve_or_fallback(&self, path: &Path) -> &T {
            self.resolve(path).map_or(&self.fallback, |i| &i.value)
        }
    }
}
