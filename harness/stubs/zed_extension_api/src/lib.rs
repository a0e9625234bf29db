//! Stand-in for the Zed host: the same API, answers set by the harness, calls recorded.
#![allow(static_mut_refs)]
pub use serde_json;
pub type Result<T, E = String> = core::result::Result<T, E>;
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct LanguageServerId(pub String);
impl AsRef<str> for LanguageServerId {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl core::fmt::Display for LanguageServerId {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(&self.0)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Os { Mac, Linux, Windows }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Architecture { Aarch64, X86, X8664 }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DownloadedFileType { Gzip, GzipTar, Zip, Uncompressed }
#[derive(Clone, PartialEq, Debug)]
pub enum LanguageServerInstallationStatus { None, Downloading, CheckingForUpdate, Failed(String) }
pub struct GithubReleaseOptions { pub require_assets: bool, pub pre_release: bool }
#[derive(Clone, Debug)]
pub struct GithubReleaseAsset { pub name: String, pub download_url: String }
#[derive(Clone, Debug)]
pub struct GithubRelease { pub version: String, pub assets: Vec<GithubReleaseAsset> }
#[derive(Clone, Debug)]
pub struct Command { pub command: String, pub args: Vec<String>, pub env: Vec<(String, String)> }
pub struct World {
    pub settings: Option<fn() -> settings::LspSettings>,
    pub path: Option<String>,
    pub args: Option<Vec<String>>,
    pub which: Option<String>,
    pub release: Option<GithubRelease>,
    pub platform: (Os, Architecture),
    pub download_fails: bool,
    pub on_download: fn(&str, &str, DownloadedFileType),
    pub asked: Vec<String>,
    pub downloads: Vec<(String, String, DownloadedFileType)>,
}
fn nothing(_: &str, _: &str, _: DownloadedFileType) {}
pub static mut WORLD: World = World {
    settings: None, path: None, args: None, which: None, release: None, platform: (Os::Linux, Architecture::X8664),
    download_fails: false, on_download: nothing, asked: Vec::new(), downloads: Vec::new(),
};
pub fn world() -> &'static mut World {
    unsafe { &mut WORLD }
}
pub struct Worktree;
impl Worktree {
    pub fn id(&self) -> u64 {
        1
    }
    pub fn root_path(&self) -> String {
        "/project".into()
    }
    pub fn read_text_file(&self, _p: &str) -> Result<String> {
        Err("no such file".into())
    }
    pub fn shell_env(&self) -> Vec<(String, String)> {
        vec![]
    }
    pub fn which(&self, name: &str) -> Option<String> {
        world().asked.push(format!("which {name}"));
        if name == "jarl" { world().which.clone() } else { None }
    }
}
pub fn set_language_server_installation_status(_: &LanguageServerId, _: &LanguageServerInstallationStatus) {}
pub fn latest_github_release(repo: &str, o: GithubReleaseOptions) -> Result<GithubRelease> {
    world().asked.push(format!("release {repo} {} {}", o.require_assets, o.pre_release));
    world().release.clone().ok_or_else(|| "no release".into())
}
pub fn current_platform() -> (Os, Architecture) {
    world().platform
}
pub fn download_file(url: &str, to: &str, t: DownloadedFileType) -> Result<()> {
    let w = world();
    w.downloads.push((url.into(), to.into(), t));
    if w.download_fails {
        return Err("network".into());
    }
    (w.on_download)(url, to, t);
    Ok(())
}
pub fn make_file_executable(_: &str) -> Result<()> {
    Ok(())
}
pub mod settings {
    use super::*;
    #[derive(Default, Debug, Clone)]
    pub struct CommandSettings {
        pub path: Option<String>,
        pub arguments: Option<Vec<String>>,
        pub env: Option<std::collections::HashMap<String, String>>,
    }
    #[derive(Default, Debug, Clone)]
    pub struct LspSettings {
        pub binary: Option<CommandSettings>,
        pub initialization_options: Option<serde_json::Value>,
        pub settings: Option<serde_json::Value>,
    }
    impl LspSettings {
        pub fn for_worktree(name: &str, _: &Worktree) -> Result<Self> {
            world().asked.push(format!("settings {name}"));
            match world().settings {
                Some(f) => Ok(f()),
                None => Err("no settings".into()),
            }
        }
    }
}
pub trait Extension: Send + Sync {
    fn new() -> Self
    where
        Self: Sized;
    fn language_server_command(&mut self, id: &LanguageServerId, w: &Worktree) -> Result<Command>;
    fn language_server_initialization_options(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Option<serde_json::Value>> {
        Ok(None)
    }
    fn language_server_workspace_configuration(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Option<serde_json::Value>> {
        Ok(None)
    }
}
#[macro_export]
macro_rules! register_extension {
    ($t:ty) => {
        pub fn __new() -> Box<dyn $crate::Extension> {
            Box::new(<$t as $crate::Extension>::new())
        }
    };
}
