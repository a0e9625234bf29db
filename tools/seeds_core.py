RMD = "crates/jarl-core/src/rmd/extraction.rs"
REGEX = 'regex = { version = "1.11.1", default-features = false, features = ["std"] }'
rmd = lambda body: '#[path = "/repo/crates/jarl-core/src/rmd/extraction.rs"]\nmod extraction;\nfn main() {\n' + body + '\n}\n'
make("rmd-crlf-start", "P01", RMD, "let chunk_start_byte = byte_offset + line.len();",
     "let chunk_start_byte = byte_offset + line.trim_end().len() + 1;",
     "a chunk header line ending in CRLF (or trailing spaces)", "the reported start of the chunk is off, so diagnostics point to the wrong place",
     rmd('''    let s = "a\\r\\n```{r}\\r\\nx <- 1\\r\\n```\\r\\n";
    let c = extraction::extract_r_chunks(s);
    assert_eq!(c.len(), 1);
    assert_eq!(&s[c[0].start_byte..c[0].start_byte + c[0].code.len()], c[0].code);'''), REGEX)
make("rmd-close-prefix", "P02", RMD, "if line.trim() == fence.as_str() {", "if line.trim().starts_with(fence.as_str()) {",
     "a line inside the chunk that starts with the fence but is not only the fence", "the chunk is closed early by a line that is not a closing fence",
     rmd('''    let s = "```{r}\\nx <- '\\n```a'\\ny\\n```\\n";
    let c = extraction::extract_r_chunks(s);
    assert_eq!(c.len(), 1);
    assert_eq!(c[0].code, "x <- '\\n```a'\\ny\\n");'''), REGEX)
dirm = lambda body: '''#[path = "/repo/crates/jarl-core/src/directive.rs"]
mod directive;
#[path = "/repo/crates/jarl-core/src/rule_set.rs"]
mod rule_set;
#[allow(unused_imports)]
use directive::*;
use rule_set::*;
fn main() {
''' + body + "\n}\n"
D = "crates/jarl-core/src/directive.rs"
make("dir-blank-reason", "P03", D, "let explanation = text[colon_pos + 1..].trim();", "let explanation = text[colon_pos + 1..].trim_end_matches('\\n');",
     "a suppression whose reason is only blanks", "a suppression without explanation silences a rule",
     dirm('    assert_eq!(parse_comment_directive("# jarl-ignore seq:   "), Some(DirectiveParseResult::MissingExplanation));\n    assert!(Rule::from_name("seq").is_some());'))
make("dir-chunk-vs-file", "P03", D, '''                RuleParseResult::Valid(rule) => Some(DirectiveParseResult::Valid(
                    LintDirective::IgnoreChunk(rule),
                )),''', '''                RuleParseResult::Valid(rule) if is_quarto_pipe => Some(
                    DirectiveParseResult::Valid(LintDirective::IgnoreChunk(rule)),
                ),
                RuleParseResult::Valid(rule) => Some(DirectiveParseResult::Valid(
                    LintDirective::IgnoreFile(rule),
                )),''', "the plain-comment form of jarl-ignore-chunk", "a chunk-wide suppression silences the whole file",
     dirm('    assert_eq!(parse_comment_directive("# jarl-ignore-chunk seq: a"), Some(DirectiveParseResult::Valid(LintDirective::IgnoreChunk(Rule::Seq))));'))
make("dir-item-no-space", "P04", D, "    let rest = rest.trim_start();\n    // Must start with \"-\"", "    let rest = rest.strip_prefix(' ')?.trim_start();\n    // Must start with \"-\"",
     "a list item written `#|- rule: reason` or with a tab after `#|`", "a documented list item is not recognised, so its suppression and every later one is dropped",
     dirm('    assert_eq!(parse_quarto_chunk_array_item("#|- seq: why"), Some(DirectiveParseResult::Valid(LintDirective::IgnoreChunk(Rule::Seq))));'))
R = "crates/jarl-core/src/rule_set.rs"
make("rules-primary-category", "P05", R, "self.categories().contains(&category)", "self.categories().first() == Some(&category)",
     "a rule with several categories queried for any but the first", "--select PERF or READ misses rules of that category",
     dirm('    assert!(Rule::RedundantIfelse.has_category(Category::Read));'))
make("rules-filter-dedup", "P05", R, "rules: self.rules.into_iter().filter(predicate).collect(),", "rules: self.rules.into_iter().skip_while(|r| r.is_deprecated()).filter(predicate).collect(),",
     "a rule set whose first rule is deprecated, then filtered", "the deprecated rule silently disappears from a filtered selection",
     dirm('    let s = RuleSet::from_rules(vec![Rule::Browser, Rule::Seq]).filter(|_| true);\n    assert_eq!(s.len(), 2);'))
DE = "crates/jarl-core/src/description.rs"
make("desc-tab-continuation", "P06", DE, "if line.starts_with(char::is_whitespace) {", "if line.starts_with(' ') {",
     "a continuation line indented with a tab", "the R version on a tab-indented continuation line is lost",
     '''#[path = "/repo/crates/jarl-core/src/description.rs"]
mod description;
fn main() {
    let v = description::Description::get_depend_r_version("Depends:\\n\\tR (>= 4.1)\\n").unwrap();
    assert_eq!(v, ["4.1"]);
}
''', 'anyhow = "1"')
F = "crates/jarl-core/src/fs.rs"
make("fs-relativize-text", "P31", F, "    if let Ok(path) = path.strip_prefix(cwd) {\n        return format!(\"{}\", path.display());\n    }\n    format!(\"{}\", path.display())",
     "    let shown = format!(\"{}\", path.display());\n    match shown.strip_prefix(&format!(\"{}\", cwd.display())) {\n        Some(rest) => rest.trim_start_matches('/').to_string(),\n        None => shown,\n    }",
     "a path beside the working directory whose name extends the working directory's", "a file outside the working directory is displayed as if it were inside",
     '''#[path = "/repo/crates/jarl-core/src/fs.rs"]
mod fs;
fn main() {
    std::env::set_current_dir("/usr/lib").unwrap();
    assert_eq!(fs::relativize_path("/usr/lib/x/a.R"), "x/a.R");
    assert_eq!(fs::relativize_path("/usr/lib32/a.R"), "/usr/lib32/a.R");
}
''', 'path-absolutize = { version = "3.1.1", features = ["once_cell_cache"] }')
