LD = "crates/jarl-lsp/src/document.rs"; LC = "crates/jarl-lsp/src/client.rs"
LSPDEPS = 'lsp-server = "0.7"\nlsp-types = "0.95"\ncrossbeam = "0.8"\nanyhow = "1.0"\ntracing = "0.1"\nserde = { version = "1.0", features = ["derive"] }\nserde_json = "1.0"'
doc = lambda body: '#[path = "/repo/crates/jarl-lsp/src/document.rs"]\nmod document;\nuse document::*;\nuse lsp_types::*;\nfn main() {\n' + body + '\n}\n'
cli = lambda body: '#[path = "/repo/crates/jarl-lsp/src/client.rs"]\nmod client;\nuse client::*;\nuse lsp_server::*;\nfn main() {\n' + body + '\n}\n'
make("doc-line-beyond", "P07", LD, "if line >= self.line_starts.len() {", "if line > self.line_starts.len() {",
     "a change that starts on the line just after the last one", "the server panics on an invalid notification instead of rejecting it",
     doc('''    let mut d = TextDocument::new("a\\nb".into(), 1);
    let r = Range::new(Position::new(2, 0), Position::new(2, 0));
    let c = vec![TextDocumentContentChangeEvent { range: Some(r), range_length: None, text: "x".into() }];
    let r = std::panic::catch_unwind(move || d.apply_changes(c, 2, PositionEncoding::UTF16).is_err());
    assert!(matches!(r, Ok(true)));'''), LSPDEPS)
make("doc-utf32-astral", "P08", LD, "prefix.chars().count()", "prefix.encode_utf16().count()",
     "UTF-32 negotiated and a character outside the BMP before the position", "positions sent to UTF-32 clients are too far right",
     doc('''    let d = TextDocument::new("a\U0001F600b".into(), 1);
    assert_eq!(d.offset_to_position(5, PositionEncoding::UTF32).unwrap(), Position::new(0, 2));'''), LSPDEPS)
make("doc-line-starts-full", "P07", LD, "            if byte == b'\\n' {\n                line_starts.push(i + 1);", "            if byte == b'\\n' && i + 1 < content.len() {\n                line_starts.push(i + 1);",
     "text typed on the empty last line of a document that ends in a newline", "an edit on the last line is rejected, the server's text diverges from the editor's",
     doc('''    let mut d = TextDocument::new("a\\n".into(), 1);
    let r = Range::new(Position::new(1, 0), Position::new(1, 0));
    let c = vec![TextDocumentContentChangeEvent { range: Some(r), range_length: None, text: "x".into() }];
    d.apply_changes(c, 2, PositionEncoding::UTF16).unwrap();
    assert_eq!(d.content(), "a\\nx");'''), LSPDEPS)
make("client-id-reuse", "P10", LC, "        if let Some(pending_request) = pending.remove(&response.id) {\n",
     "        if let Some(pending_request) = pending.remove(&response.id) {\n            if pending.is_empty() {\n                // Nothing is in flight any more\n                self.request_id_counter\n                    .store(1, std::sync::atomic::Ordering::SeqCst);\n            }\n",
     "a request, its response, and another request", "a request id is used twice in a session",
     cli('''    let (s, r) = crossbeam::channel::unbounded();
    let c = Client::new(s);
    let mut ids = vec![];
    for _ in 0..2 {
        c.send_request::<lsp_types::request::Shutdown>((), |_| {}).unwrap();
        let Message::Request(q) = r.recv().unwrap() else { panic!() };
        assert!(!ids.contains(&q.id));
        ids.push(q.id.clone());
        c.handle_response(Response { id: q.id, result: None, error: None });
    }'''), LSPDEPS)
make("client-notice-clone", "P10", LC, "            .swap(true, std::sync::atomic::Ordering::SeqCst);\n        if already {", "            .swap(hidden_count > 1, std::sync::atomic::Ordering::SeqCst);\n        if already {",
     "a first notice about a single hidden diagnostic followed by another", "the once-per-session notice is shown again",
     cli('''    let (s, _r) = crossbeam::channel::unbounded();
    let c = Client::new(s);
    assert!(c.notify_unused_fn_threshold_once(1).unwrap());
    assert!(!c.clone().notify_unused_fn_threshold_once(3).unwrap());'''), LSPDEPS)
J = "crates/jarl/src/logging.rs"
make("cli-level-case", "P22", J, "        match value {\n            \"error\"", "        match value.trim().to_ascii_lowercase().as_str() {\n            \"error\"",
     "a log level with other case or surrounding blanks", "--log-level accepts undocumented names and no longer shows the rejected value as typed",
     '''#[path = "/repo/crates/jarl/src/logging.rs"]
mod logging;
fn main() {
    assert!("WARN".parse::<logging::LogLevel>().is_err());
    assert!("warn".parse::<logging::LogLevel>().is_ok());
}
''', 'tracing = "0.1"\ntracing-subscriber = "0.3"\nanyhow = "1.0"')
Z = "editors/zed/src/lib.rs"
STUB = "\n".join(l for l in open("/verif/harness/stubs/zed_extension_api/src/lib.rs").read().splitlines() if not l.startswith(("//!", "#![")))
zed = lambda body: '''#![allow(static_mut_refs, dead_code)]
extern crate self as zed_extension_api;
''' + STUB + '''
#[path = "/repo/editors/zed/src/lib.rs"]
mod ext;
fn main() {
    let d = std::env::temp_dir().join(format!("zeddemo{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_current_dir(&d).unwrap();
    let r = std::panic::catch_unwind(go);
    std::env::set_current_dir("/").unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    assert!(r.is_ok());
}
fn unpack(_: &str, to: &str, _: DownloadedFileType) {
    let p = format!("{to}/jarl-x86_64-unknown-linux-gnu");
    std::fs::create_dir_all(&p).unwrap();
    std::fs::write(format!("{p}/jarl"), b"x").unwrap();
}
fn release(version: &str) -> Option<GithubRelease> {
    Some(GithubRelease { version: version.into(), assets: vec![
        GithubReleaseAsset { name: "jarl-x86_64-unknown-linux-gnu.tar.gz.sha256".into(), download_url: "sum".into() },
        GithubReleaseAsset { name: "jarl-x86_64-unknown-linux-gnu.tar.gz".into(), download_url: "bin".into() }] })
}
fn go() {
    let w = world();
    w.on_download = unpack;
    let id = LanguageServerId("jarl".into());
    let mut e = ext::__new();
''' + body + "\n}\n"
make("zed-asset-prefix", "P30", Z, ".find(|asset| asset.name == release_details.asset_name)", ".find(|asset| asset.name.starts_with(&release_details.asset_name))",
     "a release listing a checksum file before the archive", "the checksum is downloaded and unpacked instead of the binary",
     zed('''    w.release = release("1");
    e.language_server_command(&id, &Worktree).unwrap();
    assert_eq!(w.downloads[0].0, "bin");'''), 'serde_json = "1.0"', edition="2021")
make("zed-keep-prefix", "P30", Z, "if entry.file_name().to_str() != Some(&release_details.downloaded_directory) {", "if !entry.file_name().to_str().is_some_and(|name| {\n                    release_details.downloaded_directory.starts_with(name)\n                }) {",
     "an outdated version whose number is a prefix of the new one", "outdated downloads pile up in the extension's directory",
     zed('''    std::fs::create_dir("jarl-1").unwrap();
    w.release = release("1.2");
    e.language_server_command(&id, &Worktree).unwrap();
    assert!(!std::path::Path::new("jarl-1").exists());
    assert!(std::path::Path::new("jarl-1.2").exists());'''), 'serde_json = "1.0"', edition="2021")
