#![allow(dead_code, static_mut_refs)]
#[path = "../../rt.rs"]
mod rt;
#[path = "../../mockfs.rs"]
mod mockfs;
#[path = "/repo/editors/zed/src/lib.rs"]
mod ext;
use rt::*;
use zed_extension_api as zed;
use zed::{settings::*, Architecture as A, Extension, Os as O};

fn settings() -> LspSettings {
    let w = zed::world();
    LspSettings {
        binary: if w.path.is_none() && w.args.is_none() && w.release.is_some() { None } else { Some(CommandSettings { path: w.path.clone(), arguments: w.args.clone(), env: None }) },
        initialization_options: Some(serde_json::Value::from(1)),
        settings: Some(serde_json::Value::from("s")),
    }
}
/// What a release archive unpacks to.
fn unpack(_url: &str, to: &str, _t: zed::DownloadedFileType) {
    let (os, arch) = zed::world().platform;
    mockfs::add_file(&format!("{to}/{}", inside(os, arch)), b"new");
}
fn stem(os: O, arch: A) -> String {
    let a = match arch { A::Aarch64 => "aarch64", A::X86 => "x86", A::X8664 => "x86_64" };
    let o = match os { O::Mac => "apple-darwin", O::Linux => "unknown-linux-gnu", O::Windows => "pc-windows-msvc" };
    format!("jarl-{a}-{o}")
}
fn inside(os: O, arch: A) -> String {
    if os == O::Windows { "jarl.exe".into() } else { format!("{}/jarl", stem(os, arch)) }
}
/// k starts of the language server in one session, the world changing in between.
fn starts(k: usize) {
    mockfs::reset();
    let w = zed::world();
    w.on_download = unpack;
    let one = k == 1;
    let os = [O::Mac, O::Windows, O::Linux][choose(if one { 3 } else { 2 })];
    let arch = [A::X8664, A::X86, A::Aarch64][choose(if one { 3 } else { 1 })];
    w.platform = (os, arch);
    let suffix = if os == O::Windows { "zip" } else { "tar.gz" };
    let asset = format!("{}.{suffix}", stem(os, arch));
    mockfs::add_file("jarl-0.0.1/old/jarl", b"old");
    mockfs::add_file("jarl-1/x", b"other");
    let id = zed::LanguageServerId("jarl".into());
    let mut ext = ext::__new();
    let mut cached: Option<String> = None;
    for i in 0..k {
        w.asked.clear();
        w.downloads.clear();
        mockfs::log(); unsafe { mockfs::LOG.clear() };
        let version = ["1", "1.2"][if i == 0 && !one { 0 } else { choose(2) }];
        let dir = format!("jarl-{version}");
        let bin = format!("{dir}/{}", inside(os, arch));
        let what = choose(4);
        w.path = if what == 0 { Some("/user/jarl".into()) } else { None };
        w.which = if what <= 1 { Some("/bin/jarl".into()) } else { None };
        w.args = [None, Some(vec![]), Some(vec!["server".to_string(), "-v".to_string()])][choose(if one { 3 } else { 2 })].clone();
        w.settings = if what == 0 || w.args.is_some() || (one && flag()) { Some(settings) } else { None };
        if cached.is_some() && flag() {
            // Somebody removes the earlier download.
            unsafe { mockfs::NODES.retain(|n| n.dir || !n.path.as_bytes().ends_with(b"jarl") && !n.path.as_bytes().ends_with(b"jarl.exe")) };
        }
        // The asset list: the right one, preceded by a near miss.
        let mut near = asset.clone().into_bytes();
        // A changed character, a suffix, or a prefix.
        match choose(if one { 6 } else { 1 }) {
            4 => near.push(byte(b'-', b'z')),
            5 => near.insert(0, byte(b'-', b'z')),
            i => near[i * 5] = byte(b'-', b'z'),
        }
        let near = String::from_utf8(near).unwrap();
        let hit = near == asset;
        let near_only = what == 3;
        w.download_fails = what == 2 && flag();
        let mut assets = vec![zed::GithubReleaseAsset { name: near.clone(), download_url: if hit { "u".into() } else { "near".into() } }];
        if !near_only {
            assets.push(zed::GithubReleaseAsset { name: asset.clone(), download_url: "u".into() });
        }
        w.release = Some(zed::GithubRelease { version: version.into(), assets });
        let args = w.args.clone().unwrap_or_else(|| vec!["server".to_string()]);
        let was_there = mockfs::file(&bin).is_some();
        let before: Vec<String> = unsafe { mockfs::NODES.iter().map(|n| n.path.clone()).collect() };
        note(|| format!("{os:?} {arch:?} version {version} settings {} path {:?} which {:?} args {:?} assets {:?} files {before:?}", w.settings.is_some(), w.path, w.which, w.args, w.release));
        let cached_ok = cached.as_ref().is_some_and(|c| mockfs::file(c).is_some());
        let r = ext.language_server_command(&id, &zed::Worktree);
        let (command, downloads) = if w.path.is_some() {
            (Some("/user/jarl".to_string()), false)
        } else if w.which.is_some() {
            (Some("/bin/jarl".to_string()), false)
        } else if cached_ok && cached.is_some() {
            (cached.clone(), false)
        } else if near_only && !hit {
            (None, false)
        } else if was_there {
            (Some(bin.clone()), false)
        } else if w.download_fails {
            (None, true)
        } else {
            (Some(bin.clone()), true)
        };
        match (r, command) {
            (Ok(c), Some(want)) => {
                check(c.command == want, "the_right_binary_is_started");
                check(c.args == args, "with_the_users_arguments_or_server");
                check(c.env.is_empty(), "and_no_environment");
                if c.command == bin {
                    check(mockfs::file(&bin).is_some(), "a_downloaded_binary_exists");
                    cached = Some(bin.clone());
                    reach("downloaded");
                } else if c.command.as_bytes()[0] == b'/' {
                    reach("found");
                }
            }
            (Err(_), None) => reach("fails"),
            _ => check(false, "it_starts_exactly_when_a_binary_can_be_had"),
        }
        check(w.downloads.len() == downloads as usize, "it_downloads_only_when_needed");
        if downloads {
            let t = if os == O::Windows { zed::DownloadedFileType::Zip } else { zed::DownloadedFileType::GzipTar };
            let (url, to, ty) = &w.downloads[0];
            check(url == "u", "it_downloads_the_platforms_asset");
            check(to == &dir && *ty == t, "it_unpacks_to_the_versions_directory");
        }
        let after: Vec<String> = unsafe { mockfs::NODES.iter().map(|n| n.path.clone()).collect() };
        if downloads && !w.download_fails {
            // Exactly the other directories are gone.
            let keep = format!("/w/{dir}");
            for p in &after {
                check(p == "/" || p == "/w" || *p == keep || p.as_bytes().starts_with(format!("{keep}/").as_bytes()), "outdated_versions_are_removed");
            }
            reach("cleaned");
        } else {
            check(after == before, "nothing_is_removed_without_a_new_download");
        }
        for l in mockfs::log() {
            let b = l.as_bytes();
            check(b.starts_with(b"unlink /w/") || b.starts_with(b"rmdir /w/"), "only_its_own_directory_is_touched");
        }
        if let Some(s) = w.settings {
            let s = s();
            check(ext.language_server_initialization_options(&id, &zed::Worktree) == Ok(s.initialization_options), "initialization_options_are_the_users");
            check(ext.language_server_workspace_configuration(&id, &zed::Worktree) == Ok(s.settings), "workspace_configuration_is_the_users");
        } else {
            check(ext.language_server_initialization_options(&id, &zed::Worktree) == Ok(Some(serde_json::Value::Null)), "no_initialization_options_by_default");
        }
        for a in &w.asked {
            check(a.as_bytes().starts_with(b"settings jarl") || a == "which jarl" || a == "release etiennebacher/jarl true false", "it_asks_for_jarls_stable_release");
        }
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn se_run(_i: u32) {
    starts(param(0));
}
fn main() {
    native_main(se_run)
}
