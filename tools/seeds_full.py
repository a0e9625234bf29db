# Planted bugs in the parts of jarl that only build against the stand-in crates; the demos carry those crates (stubs.tar.gz).
import base64, io, os, tarfile
class Bundle(str): pass
HEAD = r'''#!/bin/bash
# cwd: /repo.  Builds @WHAT@ from the repository's sources, with stand-ins for the crates that
# are not available offline (stubs.tar.gz), and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "${T:?}"' EXIT
tar xzf "$D/stubs.tar.gz" -C "$T" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS=-Awarnings NO_COLOR=1
'''
CLI = HEAD.replace("@WHAT@", "the `jarl` binary") + r'''
(cd "$T/stubs/jarl" && cargo build -q --offline --bin jarl) || exit 3
J="$T/target/debug/jarl"
mkdir "$T/w" "$T/home"; export XDG_CONFIG_HOME="$T/home"
cd "$T/w" || exit 3
fail() { echo "WRONG: $*"; cat out 2>/dev/null; exit 1; }
jarl() { "$J" check "$@" > out 2>&1; rc=$?; }
has() { grep -qF -- "$1" out || fail "no '$1' in the output"; }
hasnot() { ! grep -qF -- "$1" out || fail "'$1' in the output"; }
'''
RS = HEAD.replace("@WHAT@", "a program that uses jarl-core") + r'''
mkdir -p "$T/stubs/demo/src" && cp "$D/demo.rs" "$T/stubs/demo/src/main.rs"
cat > "$T/stubs/demo/Cargo.toml" <<'EOT'
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
jarl-core = { path = "../jarl-core" }
git2 = { path = "../git2" }
EOT
cp "$T/stubs/jarl-core/Cargo.lock" "$T/stubs/demo/Cargo.lock" 2>/dev/null
mkdir "$T/w"; cd "$T/stubs/demo" && cargo build -q --offline || exit 3
cd "$T/w" && "$T/target/debug/demo"
'''
def stubs(sid):
    d = f"/verif/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    skip = {"zed_extension_api", "insta", "jarl-lsp-tests"}
    def flt(t):
        t.mtime = 0; t.uid = t.gid = 0; t.uname = t.gname = ""
        return None if any(x in ("target", "zed_extension_api") for x in t.name.split("/")) else t
    import gzip
    with open(f"{d}/stubs.tar.gz", "wb") as f, gzip.GzipFile(fileobj=f, mode="wb", mtime=0) as g, tarfile.open(fileobj=g, mode="w") as t:
        t.add("/verif/harness/stubs", "stubs", filter=flt)
ONLY = os.environ.get("ONLY")
def go(sid, *a, **k):
    if ONLY and sid not in ONLY.split(","): return
    if os.path.exists(f"/verif/seeded/{sid}/patch.diff") and not os.environ.get("FORCE"): return
    stubs(sid)
    old = os.environ.get("FORCE")
    os.environ["FORCE"] = "1"
    try:
        make(sid, *a, **k)
    except AssertionError as e:
        print("BAD ", sid, str(e)[:300])
    if old is None: del os.environ["FORCE"]
    else: os.environ["FORCE"] = old
def cli(sid, prop, file, old, new, needs, breaks, sh, count=1):
    go(sid, prop, file, old, new, needs, breaks, "", demo_sh=CLI + sh.strip("\n") + "\nexit 0\n", count=count)
def rs(sid, prop, file, old, new, needs, breaks, demo, count=1):
    go(sid, prop, file, old, new, needs, breaks, demo, demo_sh=RS, count=count)
C = "crates/jarl-core/src/"
L = C + "lints/base/"
MAIN = "crates/jarl/src/"

rs("vcs-one-repo-is-enough", "P13", C + "vcs.rs", "if !paths_without_repo.is_empty() {", "if !paths_without_repo.is_empty() && repo_to_paths.is_empty() {",
   "files in a repository and files outside any are fixed in the same run", "files that no repository covers are rewritten without --allow-no-vcs",
   r'''use jarl_core::config::*;
fn main() {
    git2::repos().push(git2::Repo { root: "/w/a".to_string(), entries: vec![] });
    let args = ArgsConfig { files: vec![], fix: true, unsafe_fixes: false, fix_only: false, select: "".into(), extend_select: "".into(), ignore: "".into(), min_r_version: None, allow_dirty: false, allow_no_vcs: false, assignment: None };
    let config = build_config(&args, None, vec![]).unwrap();
    let ok = |p: &[&str]| jarl_core::vcs::check_version_control(&p.iter().map(|x| x.to_string()).collect::<Vec<_>>(), &config).is_ok();
    assert!(ok(&["/w/a/x.R"]));
    assert!(!ok(&["/w/b/x.R"]));
    assert!(!ok(&["/w/a/x.R", "/w/b/x.R"]));
}
''')
cli("fix-empty-fixable", "P16", C + "check.rs", "                && !fixable_set.contains(&x.message.name)\n", "                && !fixable_set.is_empty()\n                && !fixable_set.contains(&x.message.name)\n",
   "`fixable = []` in jarl.toml", "an empty list of fixable rules allows every fix instead of none", r'''
printf '[lint]\nfixable = []\n' > jarl.toml
printf 'any(is.na(x))\n' > a.R
jarl a.R --fix --allow-no-vcs
[ "$(cat a.R)" = 'any(is.na(x))' ] || fail "a.R was fixed: $(cat a.R)"
has 'any_is_na'
''')
cli("rules-cli-ignore-replaces", "P15", C + "config.rs", "    let all_ignored: HashSet<String> = cli_ignored.union(&toml_ignored).cloned().collect();\n",
   "    let all_ignored = if cli_ignored.is_empty() { toml_ignored } else { cli_ignored };\n",
   "rules are ignored both on the command line and in jarl.toml", "what jarl.toml ignores is reported as soon as --ignore is used", r'''
printf '[lint]\nignore = ["any_is_na"]\n' > jarl.toml
printf 'any(is.na(x))\nany(duplicated(x))\nx = 1\n' > a.R
jarl a.R --output-format concise
hasnot 'any_is_na'; has 'any_duplicated'
jarl a.R --output-format concise --ignore any_duplicated
hasnot 'any_duplicated'; hasnot 'any_is_na'
''')
cli("rules-toml-ignore-unchecked", "P15", C + "config.rs", '''            trimmed.is_empty() || !all_rules_set.contains(trimmed)''', '''            !trimmed.is_empty() && !all_rules_set.contains(trimmed)''',
   "an empty name in a list of rules, e.g. a stray comma", "a list with an empty name is accepted, so `--select ''-like typos run no rule at all", r'''
printf 'any(is.na(x))\n' > a.R
jarl a.R --select any_is_na --output-format concise
[ $rc = 1 ] || fail "status $rc"
jarl a.R --select 'any_is_na,' --output-format concise
[ $rc = 255 ] || fail "status $rc"
''')
cli("version-lenient-patch", "P17", C + "config.rs", '''        parts[2]
            .parse::<u32>()
            .map_err(|_| anyhow::anyhow!("Patch version should be a valid integer"))?''', '''        parts[2].parse::<u32>().unwrap_or(0)''',
   "a version whose third part is not a number", "an invalid --min-r-version is silently taken for another one", r'''
printf 'x <- grep("a", y, value = TRUE)\n' > a.R
jarl a.R --select grepv --min-r-version 4.5.0 --output-format concise
[ $rc = 1 ] || fail "status $rc"
jarl a.R --select grepv --min-r-version 4.5.x --output-format concise
[ $rc = 255 ] || fail "status $rc"
''')
cli("rmd-file-ignore-after-broken-chunk", "P18", C + "check.rs", "        if chunk_index > 0 {\n", "        let is_first_chunk = states.iter().all(|s| s.is_none());\n        if !is_first_chunk && chunk_index > 0 {\n",
   "an R Markdown document whose first chunk does not parse", "`# jarl-ignore-file` in a later chunk silences the whole document", r'''
printf '```{r}\nx <- (\n```\n\n```{r}\n# jarl-ignore-file any_is_na: why\nany(is.na(x))\n```\n' > a.Rmd
jarl a.Rmd --output-format concise
has 'any_is_na'; has 'misplaced_file_suppression'
printf '```{r}\n# jarl-ignore-file any_is_na: why\nx <- 1\n```\n\n```{r}\nany(is.na(x))\n```\n' > a.Rmd
jarl a.Rmd --output-format concise
hasnot 'any_is_na'
''')
cli("sup-region-start-only", "P18", C + "suppression.rs", "region.rule == rule && region.range.contains_range(diag.range)", "region.rule == rule && region.range.contains(diag.range.start())",
   "an end comment inside an expression that began in the region", "a violation that reaches beyond the region is silenced", r'''
printf '# jarl-ignore-start any_is_na: why\nany(is.na(x))\n# jarl-ignore-end any_is_na\n' > a.R
jarl a.R --output-format concise
hasnot 'any_is_na'
printf '# jarl-ignore-start any_is_na: why\nany(\n  # jarl-ignore-end any_is_na\n  is.na(x)\n)\n' > a.R
jarl a.R --output-format concise
has 'any_is_na'
''')
cli("sup-rmd-outdated-file", "P19", C + "check.rs", '''                .iter()
                .filter(|(_, rule)| rules_violated.contains(rule))
                .map(|(range, _)| *range)''', '''                .iter()
                .map(|(range, _)| *range)''',
   "several file suppressions in an R Markdown document, one used and one not", "an outdated suppression is not reported", r'''
printf '```{r}\n# jarl-ignore-file any_is_na: why\n# jarl-ignore-file any_duplicated: why\nx <- 1\n```\n\n```{r}\nany(is.na(x))\n```\n' > a.Rmd
jarl a.Rmd --output-format concise
hasnot 'any_is_na '; has 'a.Rmd [3:'; has 'outdated_suppression'
''')
cli("sup-array-item-ends-list", "P19", C + "suppression.rs", '''                        Some(DirectiveParseResult::InvalidRuleName) => {
                            found_any_item = true;
                            collector.misnamed_suppressions.push(item_range);
                            i += 1;
                        }''', '''                        Some(DirectiveParseResult::InvalidRuleName) => {
                            found_any_item = true;
                            collector.misnamed_suppressions.push(item_range);
                            i += 1;
                            break;
                        }''',
   "a chunk list with an unknown rule before other items", "the items behind an unknown rule are not obeyed and their mistakes are not reported", r'''
printf '```{r}\n#| jarl-ignore-chunk:\n#|   - foo: why\n#|   - any_is_na: why\n#|   - any_duplicated\nany(is.na(x))\n```\n' > a.qmd
jarl a.qmd --output-format concise
has 'misnamed_suppression'; hasnot ' any_is_na'
printf '```{r}\n#| jarl-ignore-chunk:\n#|   - foo: why\n#|   - any_is_na:\nx <- 1\n```\n' > a.qmd
jarl a.qmd --output-format concise
has 'misnamed_suppression'; has 'unexplained_suppression'
''')
cli("add-ignore-first-rule-only", "P20", MAIN + "commands/check.rs", "                if !last.3.contains(&rule_name) {", "                if last.3.len() < 2 && !last.3.contains(&rule_name) {",
   "three different violations that share one insertion point", "the third violation is not silenced by --add-jarl-ignore", r'''
printf 'any(is.na(any(duplicated(1:length(x)))))\n' > a.R
jarl a.R --add-jarl-ignore=why
jarl a.R --output-format concise
[ $rc = 0 ] || fail "status $rc: $(cat a.R)"
''')
cli("include-dir-direct-children", "P23", C + "discovery.rs", 'format!("{}**", pattern)', 'format!("{}*", pattern)',
   "an include pattern that names a directory with subdirectories", "files deeper in an included directory are not checked", r'''
mkdir -p R/sub; printf '[lint]\ninclude = ["R/"]\n' > jarl.toml
printf 'any(is.na(x))\n' | tee R/a.R R/sub/b.R > c.R
jarl . --output-format concise
has 'R/a.R'; has 'R/sub/b.R'; hasnot 'c.R'
''')
cli("unused-s3-first-dot", "P24", L + "unused_function/unused_function.rs", '''                    let is_probable_s3 = name
                        .match_indices('.')
                        .any(|(pos, _)| all_symbols.contains(&name[..pos]));''', '''                    let is_probable_s3 = name
                        .split_once('.')
                        .is_some_and(|(generic, _)| all_symbols.contains(generic));''',
   "a method of a generic whose own name has a dot", "S3 methods of such generics are reported as unused", r'''
mkdir R; printf 'Package: p\n' > DESCRIPTION; printf 'export(as.foo)\n' > NAMESPACE
printf 'as.foo <- function(x) UseMethod("as.foo")\nas.foo.bar <- function(x) 1\nbaz <- function() 1\n' > R/a.R
jarl . --select unused_function --output-format concise
has 'baz'; hasnot '`as.foo.bar`'
''')
cli("unused-headers", "P24", L + "unused_function/unused_function.rs", 'Some("c" | "cpp" | "h" | "hpp")', 'Some("c" | "cpp" | "hpp")',
   "an R function that is only called from a C header", "a function that compiled code uses is reported as unused", r'''
mkdir R src; printf 'Package: p\n' > DESCRIPTION; : > NAMESPACE
printf 'foo <- function(x) 1\nbaz <- function() 1\n' > R/a.R
printf 'static const char *fun = "foo";\n' > src/a.h
jarl . --select unused_function --output-format concise
has 'baz'; hasnot '`foo`'
''')
cli("duplicated-unsorted", "P25", L + "duplicated_function_definition/duplicated_function_definition.rs", "        file_data.sort_by(|a, b| a.rel_path.cmp(&b.rel_path));\n", "        file_data.sort_by_key(|fd| fd.rel_path.components().count());\n",
   "a definition in an excluded file (or in files given in another order) that comes first", "the first definition is reported as the duplicate, or none is", r'''
mkdir R; printf 'Package: p\n' > DESCRIPTION; : > NAMESPACE
printf '[lint]\nexclude = ["R/a.R"]\n' > jarl.toml
printf 'f <- function() 1\n' > R/a.R; printf 'f <- function() 2\n' > R/b.R
jarl . --select duplicated_function_definition --output-format concise
has 'R/b.R [1:'; has 'R/a.R:1:1'
''')
cli("statistics-any-fix", "P28", MAIN + "statistics.rs", "        if diagnostic.has_safe_fix() && !hm.entry(rule_name).or_default().1 {\n            hm.entry(rule_name).or_default().1 = true;\n        }", "        if diagnostic.has_safe_fix() && !hm.entry(rule_name).or_default().1 {\n            *hm.entry(rule_name).or_default() = (1, true);\n        }",
   "a rule whose first violation has no fix and a later one has", "--statistics undercounts the violations of that rule", r'''
printf 'any(is.na(\n  # why\n  x))\nany(is.na(\n  # why\n  x))\nany(is.na(x))\n' > a.R
jarl a.R --statistics --select any_is_na
grep -qE '^ *3 ' out || fail "not 3"
''')
cli("summary-hidden-plural", "P28", MAIN + "output_format.rs", "let n_unsafe_fixes = diagnostics.iter().filter(|d| d.has_unsafe_fix()).count();", "let n_unsafe_fixes = total as usize - n_safe_fixes;",
   "violations without any fix in the summary", "the summary announces fixes that do not exist", r'''
printf 'any(is.na(x))\nfor (i in i) 1\n' > a.R
jarl a.R
has '1 fixable with the `--fix` option.'; hasnot 'hidden'
''')
cli("location-first-line-break", "P14", C + "utils.rs", "        .filter(|x| *x <= &start)\n", "        .filter(|x| **x + 1 < start)\n",
   "a violation that starts at the very beginning of a line", "its row and column are those of the end of the line before", r'''
printf 'x <- 1\nany(is.na(x))\n  any(is.na(y))\n' > a.R
jarl a.R --output-format concise
has 'a.R [2:1]'; has 'a.R [3:3]'
''')
cli("redundant-equals-left-false", "P34", L + "redundant_equals/redundant_equals.rs", '''            } else if *left_is_false {
                right.into_syntax().text_trimmed().to_string()''', '''            } else if *left_is_false {
                format!("!{}", right.into_syntax().text_trimmed())''',
   "`!=` with the literal FALSE on the left", "the fix negates the condition", r'''
printf 'if (FALSE != x) 1\nif (x != FALSE) 1\n' > a.R
jarl a.R --fix --unsafe-fixes --allow-no-vcs --select redundant_equals
[ "$(cat a.R)" = "$(printf 'if (x) 1\nif (x) 1')" ] || fail "$(cat a.R)"
''')
cli("seq-while-comment", "P35", L + "seq/seq.rs", "to_skip: node_contains_comments(ast.syntax()),", "to_skip: node_contains_comments(right_call.syntax()),",
   "a comment between `1:` and the call", "the fix deletes the comment", r'''
printf '1: # why\n  nrow(x)\n' > a.R
jarl a.R --fix --allow-no-vcs --select seq
grep -qF '# why' a.R || fail "$(cat a.R)"
printf '1:nrow(x)\n' > a.R
jarl a.R --fix --allow-no-vcs --select seq
[ "$(cat a.R)" = 'seq_len(nrow(x))' ] || fail "$(cat a.R)"
''')
cli("boundary-nchar-type", "P35", L + "string_boundary/string_boundary.rs", "    if args.len() != 1 {\n        return false;", "    if args.is_empty() {\n        return false;",
   "nchar() with a type", "the fix drops the argument of nchar()", r'''
printf 'substring(x, n, nchar(x)) == "b"\n' > a.R
jarl a.R --select string_boundary
[ $rc = 1 ] || fail "status $rc"
printf 'substring(x, n, nchar(x, "bytes")) == "b"\n' > a.R
jarl a.R --select string_boundary --fix --unsafe-fixes --allow-no-vcs
grep -qF 'bytes' a.R || fail "$(cat a.R)"
''')
cli("fixed-regex-caret", "P36", L + "fixed_regex/fixed_regex.rs", '''    const REGEX_CHARS: &[u8; 12] = b".*+?[{()|^$\\\\";''', '''    const REGEX_CHARS: &[u8; 11] = b".*+?[{()|$\\\\";''',
   "a pattern whose only special character is an anchor at its start", "the fix turns an anchored pattern into a literal one", r'''
printf 'grepl("^a", x)\ngrepl("ab", x)\n' > a.R
jarl a.R --select fixed_regex --output-format concise
has 'a.R [2:'; hasnot 'a.R [1:'
''')
cli("sprintf-alternate-flag", "P36", L + "sprintf/sprintf.rs", "                    || chars[i] == '#'\n", "",
   "a conversion with the flag #", "a valid format is reported as invalid", r'''
printf 'sprintf("%%#x %%s", 255L, "a")\nsprintf("%%+d", 1L, 2L)\n' > a.R
jarl a.R --select sprintf --output-format concise
hasnot 'a.R [1:'; has 'a.R [2:'
''')
