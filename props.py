"""The properties: the source of properties.jsonl."""
PROPS = []
def P(id, title, statement, over, quant, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    PROPS.append(d)

RMD = "crates/jarl-core/src/rmd/extraction.rs"
P("P01", "R chunks of an Rmd/Qmd document keep their exact position",
  "Every R chunk extracted from an R Markdown or Quarto document is a verbatim slice of that document at its reported start offset. Chunks are reported in document order, never overlap, begin at the start of a line and end at the end of one. This holds for every document: multi-byte text, CRLF line ends, no final newline.",
  ["inputs"], "for every document text", "Unit tests check the offsets of a handful of literal documents; the offset arithmetic has to hold for every mix of line ends, multi-byte characters and fence positions.",
  [RMD], [("running byte offset over split_inclusive lines", RMD + ": extract_r_chunks")], ["extract_r_chunks: RCodeChunk.code, RCodeChunk.start_byte"])
P("P02", "Exactly the executable R chunks of a document are extracted",
  "A chunk is extracted exactly when a line consists of optional spaces or tabs, three or more backticks and a braced header whose engine is r or R (alone or followed by a space, tab or comma), and a later line, stripped of surrounding whitespace, is exactly that same run of backticks. The first such later line closes it and the code is everything strictly between the two lines. Display blocks, tilde fences, other engines ({ruby}, {Rcpp}, {python}) and unclosed chunks yield nothing.",
  ["inputs"], "for every document text", "15 literal documents are tested; which lines open or close a chunk depends on fence lengths, indentation, header text and their order, an unbounded input space.",
  [RMD], [("OPEN_FENCE regular expression", RMD), ("closing line comparison", RMD + ": extract_r_chunks")], ["extract_r_chunks"])
DIR = "crates/jarl-core/src/directive.rs"
P("P03", "A comment suppresses a rule only in the documented jarl-ignore forms",
  "A comment is an effective suppression exactly when it is `# jarl-ignore[-file|-start|-chunk] <rule>: <reason>` or `# jarl-ignore-end <rule>` for a registered rule, with a non-empty reason except for -end, and it then carries exactly the kind and rule written; `#|` is accepted only for -chunk. A directive without a rule, with an unknown rule or without a reason is never obeyed, and is classified as blanket, misnamed or unexplained respectively. Any other comment is not a directive.",
  ["inputs"], "for every comment text and every registered rule", "No test of the compiled part exercises directive parsing at all, and the parse-only tests sample a few comments; near-miss spellings, spacing and colons are an unbounded space.",
  [DIR], [("parse_comment_directive", DIR), ("parse_rule_with_explanation", DIR), ("Rule::from_name", "crates/jarl-core/src/rule_set.rs")], ["parse_comment_directive"])
P("P04", "Quarto chunk-option suppression lists parse item by item",
  "A comment opens a Quarto suppression list exactly when, stripped of surrounding whitespace, it is `#| jarl-ignore-chunk:`. An item suppresses a rule exactly when it is `#|`, optional whitespace, `-`, whitespace, a registered rule, a colon and a non-empty reason; an unknown rule or a missing reason is classified as such and suppresses nothing. Anything else is not an item.",
  ["inputs"], "for every comment text", "No compiled test covers list headers or items; the accepted spacing and the rejected near misses are an unbounded input space.",
  [DIR], [("is_quarto_chunk_array_header", DIR), ("parse_quarto_chunk_array_item", DIR)], ["is_quarto_chunk_array_header", "parse_quarto_chunk_array_item"])
RS = "crates/jarl-core/src/rule_set.rs"
P("P05", "The rule registry is consistent with itself and with the documented rules",
  "Rule names are unique, and looking a name up returns the rule with exactly that name and nothing for any other string; categories parse and print the same way and never clash with rule names. Category, fix-status and default-status queries, the iterators over them and rule sets agree with each rule's own metadata, and a deprecated rule's replacement is a live rule. Every documented rule exists with its documented categories, fix safety, default status and minimum R version.",
  ["inputs", "configurations"], "for every string, every rule, every pair of rules, every category and every small rule set", "No unit test covers the registry; names, categories and statuses multiply to thousands of combinations and name lookup ranges over all strings.",
  [RS, "docs/rules.qmd"], [("declare_rules! macro", RS), ("RuleSet", RS), ("Category::from_str", RS)], ["Rule::from_name", "Rule::by_category", "Rule::by_fix_status", "RuleSet::contains", "RuleSet::filter"])
DESC = "crates/jarl-core/src/description.rs"
P("P06", "DESCRIPTION's R dependency yields exactly the versions it requires",
  "For every DESCRIPTION text, the reported R versions are exactly those of the `R (>= version)` entries of its Depends field, in order and verbatim, across continuation lines, blank values and CRLF line ends. Other fields, packages whose name starts with R, and R entries without a version contribute nothing. Reading never panics or fails, however malformed the text.",
  ["inputs"], "for every DESCRIPTION text", "Six literal DESCRIPTION files are tested; field order, folding, spacing and malformed entries are an unbounded input space, and a panic here aborts the whole run.",
  [DESC], [("parse_dcf", DESC), ("extract_version_from_dependency", DESC)], ["Description::get_depend_r_version"])
FS = "crates/jarl-core/src/fs.rs"
P("P31", "File-type tests and path normalisation treat every path by its name alone",
  "A path is an R file exactly when its last component's extension is r or R, and an R Markdown file exactly when it is rmd, Rmd, qmd or Qmd. Normalising any path yields the absolute path it names from the working directory with `.` and `..` resolved, and is idempotent. A path under the working directory is displayed relative to it and still names the same file; any other path is displayed unchanged.",
  ["inputs"], "for every path", "No unit test covers these functions; hidden files, dots, doubled slashes and near-miss prefixes of the working directory are an unbounded space.",
  [FS], [("has_r_extension / has_rmd_extension", FS), ("normalize_path", FS), ("relativize_path", FS)], ["has_r_extension", "has_rmd_extension", "normalize_path", "relativize_path"])

LD = "crates/jarl-lsp/src/document.rs"
P("P07", "The server's document is always the text the editor has",
  "After a didChange notification the document is exactly what the editor shows: its changes are applied in order, each to the result of the one before, a change without a range replaces the whole text, and version and line count follow. A notification with an invalid change (a range that is inverted, beyond the last line, or inside a character) changes nothing and is reported as an error, never a panic. This holds for UTF-8, UTF-16 and UTF-32 positions, multi-byte text and LF or CRLF line ends.",
  ["inputs", "histories"], "for every document, encoding and sequence of changes", "A few literal edits are tested; a single wrong offset corrupts every later diagnostic and fix of the session, and edits, encodings and line ends multiply without bound.",
  [LD], [("TextDocument::apply_changes", LD), ("position_to_offset", LD)], ["TextDocument::apply_changes", "content", "version", "line_count"],
  [("content", "text the editor has", LD + ": TextDocument.content"), ("version", "version of the last applied notification", LD + ": TextDocument.version")])
P("P08", "Editor positions and byte offsets denote the same place",
  "For every document and negotiated encoding, a position's offset is the byte where its line's first `character` code units end: past the end of a line it is the line's end, before its terminator, and a position beyond the last line or inside a character is rejected. Every offset between characters, outside a CRLF, up to the end of the text has exactly one position, which maps back to it; larger offsets are an error. The encoding keys map both ways, UTF-16 is the default.",
  ["inputs"], "for every document, position, offset and encoding", "Tests use a handful of positions on short ASCII or emoji strings; surrogate pairs, CRLF, line ends and three encodings have to agree everywhere.",
  [LD], [("position_to_offset / offset_to_position", LD), ("PositionEncoding", LD)], ["TextDocument::position_to_offset", "TextDocument::offset_to_position", "TextDocument::range_of_text", "PositionEncoding::try_from"])
LC = "crates/jarl-lsp/src/client.rs"
P("P10", "Every client operation sends exactly the one message it stands for",
  "Whatever the history, each request, notification, response, error or diagnostics publication by any clone of the client sends exactly one message with its method, parameters, target id, uri, version and error code, and handling responses or expiring requests sends nothing. Request ids are never reused, across clones too. The hidden-`unused_function` notice is shown at most once per session, by the first call of any clone, with the number of hidden diagnostics.",
  ["histories"], "for every sequence of operations on any clones of the client", "Tests send one message each; uniqueness and once-only are statements about every history.",
  [LC], [("request_id_counter", LC), ("notify_unused_fn_threshold_once", LC), ("send_response / send_error_response", LC)], ["Client's message channel"],
  [("request_id_counter", "next outgoing request id", LC), ("unused_fn_threshold_notified", "notice shown", LC)])
JS = "crates/jarl/src/status.rs"; JL = "crates/jarl/src/logging.rs"
P("P22", "Exit codes and log levels follow the documented command-line contract",
  "The process exits with 0 on success, 1 when violations remain and 255 when jarl itself fails. `--log-level` accepts exactly error, warn, info, debug and trace, warn being the default, names the value it rejects, and shows each level by its capitalised name. Standard error then receives exactly the messages of jarl's own crates at or above that severity.",
  ["inputs", "configurations"], "for every level name, exit status and message", "No test of the compiled part looks at exit codes or level names; near-miss names and the level/severity/target matrix have to be right everywhere.",
  [JS, JL], [("From<ExitStatus> for ExitCode", JS), ("LogLevel::from_str", JL), ("init_logging", JL)], ["ExitCode", "LogLevel", "standard error"])
ZED = "editors/zed/src/lib.rs"
P("P30", "The Zed extension starts the right binary and touches only its own files",
  "The server command is the path from the settings, else `jarl` on the PATH, else a previous download that still exists, else the platform's asset of the latest stable etiennebacher/jarl release, unpacked under `jarl-<version>`; without any of these it is an error, never another platform's binary. Arguments are the user's, else `server`, and initialization options and workspace configuration are passed on unchanged. Nothing is downloaded while a usable binary exists, and only after a successful download are the other entries of the extension's own directory removed.",
  ["inputs", "histories", "configurations"], "for every platform, settings, asset list, directory content and sequence of starts", "The one test checks three asset names; which binary is started and what is deleted depends on settings, PATH, disk state and earlier starts together.",
  [ZED], [("language_server_binary", ZED), ("GithubReleaseDetails::new", ZED)], ["language_server_command", "language_server_initialization_options", "language_server_workspace_configuration"],
  [("cached_binary_path", "binary of an earlier download", ZED)])

NOT_APPLICABLE = []
NOTES = "check.py builds the engine (/verif/engine) and the harness crates (/verif/harness/*, which include /repo's files by path), runs them symbolically and writes evidence. specs.py lists runs and bounds."
FIX = "crates/jarl-core/src/fix.rs"
P("P11", "Applying fixes changes the text only at the fixed places",
  "For any text and any list of fixes, the new text is the old one with a set of pairwise non-overlapping fixes of that list spliced in at their own byte ranges: every other byte is kept, multi-byte text included. A fix is left out only because it overlaps another one, then another pass is requested and at least one fix was applied; when no other pass is requested every fix was applied. Without fixes the text is unchanged.",
  ["inputs"], "for every text and every list of fixes", "The fix tests compare a handful of rewritten snippets, nearly all of them ASCII and with one fix; which fixes overlap, in which order and around which multi-byte characters is an unbounded space, and a wrong offset destroys user code.",
  [FIX], [("apply_fixes", FIX)], ["apply_fixes"])
P("P14", "Every diagnostic points at the code it is about",
  "The range of every diagnostic is non-empty, lies within the file and between characters; its row is the line that range starts on and its column the number of characters before it on that line, and it names the linted file; a fix replaces text around or inside that range. In R Markdown the positions are those in the whole document, no diagnostic carries a fix, and chunks with syntax errors are skipped. This holds for CRLF, multi-byte text, comments behind the last expression and a missing final newline.",
  ["inputs"], "for every document", "Tests compare a few literal reports; positions are derived from byte offsets, line tables and chunk offsets that have to agree for every layout of the document.",
  ["crates/jarl-core/src/check.rs", "crates/jarl-core/src/utils.rs", "crates/jarl-core/src/location.rs"], [("get_checks / get_checks_rmd", "crates/jarl-core/src/check.rs"), ("find_new_lines_from_content, find_row_col, compute_lints_location", "crates/jarl-core/src/utils.rs")], ["get_checks: Diagnostic.range, location, filename, fix"])
CFG = "crates/jarl-core/src/config.rs"
CK = "crates/jarl-core/src/check.rs"
P("P13", "Files are only fixed when version control can undo it",
  "When fixes are requested, no file is written unless every file to check lies in a Git repository (or --allow-no-vcs is given) and none of those repositories has an uncommitted change of any kind, untracked files and names that are not UTF-8 included (or --allow-dirty or --allow-no-vcs is given). A refusal is reported as an error; otherwise the files are fixed. Without a fix flag nothing is ever written.",
  ["inputs", "configurations"], "for every layout of repositories, every state of their files and every combination of flags", "Three integration tests cover one repository with one file; nested and several repositories, statuses and flags multiply, and a wrong answer loses a user's uncommitted work.",
  ["crates/jarl-core/src/vcs.rs", CK], [("check_version_control", "crates/jarl-core/src/vcs.rs"), ("check", CK)], ["check: files written, results"])
P("P15", "Exactly the rules the user selected are run",
  "The rules that run are those of --select, else of `select` in jarl.toml, else the default ones, plus those of --extend-select, else of `extend-select`, minus those of --ignore and of `ignore`. A list names rules, groups or ALL, with blanks around names dropped on the command line. Any unknown or empty name in any list, fixable and unfixable included, is an error that names it.",
  ["configurations"], "for every combination of lists on the command line and in jarl.toml", "Tests sample a dozen combinations of six lists; precedence and set operations have to hold for all of them and every rule.",
  [CFG], [("parse_rules_cli / parse_rules_toml / reconcile_rules", CFG), ("replace_group_rules, get_invalid_rules", CFG)], ["build_config: Config.rules, rules_to_apply"])
P("P16", "Only the fixes the user enabled are applied",
  "A violation's fix is written to its file exactly when --fix, --unsafe-fixes or --fix-only is given, the fix is safe or --unsafe-fixes is given, the rule is in `fixable` (if given) and not in `unfixable`, and the violation is not suppressed; R Markdown files are never changed. Everything else in the file stays as it was. What is fixed is no longer reported, what could have been but is not enabled still is, and --fix-only reports nothing about rules without a fix.",
  ["inputs", "configurations"], "for every file of documented violations, every combination of flags and fixable / unfixable lists", "Tests sample single flags on single files; flags, lists and kinds of fixes interact, and an unsafe fix applied unasked changes what the user's code does.",
  [CFG, CK, FIX], [("build_config: rules_to_apply", CFG), ("get_checks: fixable / unfixable filter", CK), ("lint_fix", CK)], ["check: files written, diagnostics"])
P("P17", "Version-dependent rules run only if the project's R is recent enough",
  "A rule with a minimum R version runs exactly when the project's version is known and at least that version, compared number by number; rules without one always run. The version is the one of --min-r-version, else of the DESCRIPTION in the closest directory above the linted file. A version is two or three decimal numbers separated by dots (a missing third is 0), anything else is rejected.",
  ["inputs", "configurations"], "for every version string and every placement of DESCRIPTION files", "Tests sample three versions; the order of versions and which file's DESCRIPTION counts range over unbounded inputs.",
  [CFG, DESC], [("determine_minimum_r_version, parse_r_version, filter_rules_by_version", CFG)], ["build_config: Config.minimum_r_version, rules"])
SUP = "crates/jarl-core/src/suppression.rs"
P("P18", "Suppression comments silence exactly the violations they cover",
  "A violation is reported unless an explained comment for its rule covers it: `# jarl-ignore` covers the next code in the same block as a whole, `-start` to `-end` at the same level everything between them, `jarl-ignore-file` above the first code the whole file (in R Markdown the whole document), and the items of a `#| jarl-ignore-chunk:` list their chunk. Comments for other rules, behind code, without explanation, with an unknown rule, in the wrong form or without a partner silence nothing.",
  ["inputs"], "for every document of code, blocks and suppression comments", "Tests show single comments in single places; comments nest, overlap and sit at the edges of blocks, calls, chunks and files, and a comment that covers too much hides real problems.",
  [SUP, CK, "crates/jarl-core/src/analyze/document.rs"], [("SuppressionManager::from_node, filter_diagnostics", SUP), ("get_checks / get_checks_rmd", CK)], ["get_checks: diagnostics"])
P("P19", "Every useless or malformed suppression comment is reported, and no other",
  "A suppression comment that silences nothing is reported as outdated at its own place, one that silences a violation no other comment covers is not. Comments without a rule, without an explanation, with an unknown rule, behind code, for the file below the first code, for a chunk in the single-line form, and starts or ends without a partner at their level are each reported once, by the rule for that mistake. Other comments are never reported.",
  ["inputs"], "for every document of code, blocks and suppression comments", "Tests show one mistake at a time; which comment was used is decided per violation over all comments of the document and its chunks.",
  [SUP, CK, "crates/jarl-core/src/analyze/document.rs"], [("SuppressionManager::from_node, filter_diagnostics", SUP), ("check_document", "crates/jarl-core/src/analyze/document.rs")], ["get_checks: diagnostics of the suppression rules"])
DISC = "crates/jarl-core/src/discovery.rs"
P("P23", "The right files are checked, each with its closest configuration",
  "`jarl check PATHS` checks each named file and the .R, .r, .Rmd and .qmd files found below named directories outside those that are hidden or that git ignores, unless its configuration's `exclude`, a missing match in its `include`, or a default pattern (unless switched off) says otherwise. A file's configuration is the jarl.toml in the closest directory above it, whichever paths were named and wherever it lies, else the user's own, else the defaults. The exit status is 1 when violations were found.",
  ["configurations", "histories"], "for every placement of configurations, list of paths and set of patterns", "Tests have one or two configurations and one path; which configuration and which patterns a file gets depends on all paths and configurations together, and a wrong answer is silent: the file is just not checked.",
  [DISC, "crates/jarl/src/commands/check.rs"], [("discover_settings, discover_r_file_paths", DISC), ("check: groups by configuration", "crates/jarl/src/commands/check.rs")], ["stdout of jarl check, exit status"])
P("P28", "Every output format reports each violation and failure exactly once",
  "Each violation is listed exactly once, in order of file and place, with its file, row, column, rule and message, whatever the output format; `--statistics` counts them per rule. JSON output is always one valid document and GitHub output only annotations, also when there is nothing to check. Files that cannot be checked are named and make the status 255, else it is 1 if and only if violations remain; the summary's numbers of violations, safe fixes and hidden unsafe fixes are right, and \"All checks passed!\" appears only when they did.",
  ["inputs", "configurations"], "for every set of files, output format and configuration of fixes", "Snapshot tests show one or two violations per format; CI and editors parse this output, and counts, order, escaping and status depend on the files together.",
  ["crates/jarl/src/output_format.rs", "crates/jarl/src/statistics.rs", "crates/jarl/src/commands/check.rs"], [("Emitter implementations, print_summary", "crates/jarl/src/output_format.rs"), ("print_statistics", "crates/jarl/src/statistics.rs"), ("check: exit status", "crates/jarl/src/commands/check.rs")], ["stdout, stderr and exit status of jarl check"])
SE = "crates/jarl-core/src/suppression_edit.rs"
P("P20", "`--add-jarl-ignore` silences every violation and changes nothing else",
  "After `jarl check --add-jarl-ignore=REASON` no violation of the file is reported any more, and none of the comments that were added is itself reported. Apart from whole suppression comments with that reason, the line breaks and indentation they need, every byte of the file is kept, and it still parses; files without violations are untouched. The number of comments and files that is printed is right.",
  ["inputs"], "for every document of violations in every kind of statement", "Tests insert comments into single snippets; where a comment may go depends on the whole nesting of expressions, blocks, lines and other violations, and a misplaced one breaks the user's code or hides nothing.",
  [SE, "crates/jarl/src/commands/check.rs"], [("compute_suppression_insert_point, create_suppression_edit(_in_rmd)", SE), ("add_jarl_ignore_comments", "crates/jarl/src/commands/check.rs")], ["files and stdout after jarl check --add-jarl-ignore"])
UF = "crates/jarl-core/src/lints/base/unused_function/unused_function.rs"
PKG = "crates/jarl-core/src/package.rs"
P("P24", "A function of a package is reported as unused exactly if nothing uses it",
  "In a package with a NAMESPACE, a function defined at the top level of R/ or of a test helper is reported as unused, where it is defined, exactly when its name occurs nowhere else in the R code, strings and documentation of the package, its tests, its C and C++ sources, NAMESPACE does not export it in any form (several names or patterns per directive, directives over several lines or conditional), and `skipped-functions` does not match it. Excluded files and those not named on the command line still count as users. More reports than the threshold are hidden and counted unless the rule was asked for by name.",
  ["inputs", "configurations"], "for every package layout, NAMESPACE and place of the only use", "Tests have one or two files; whether a name is used is a property of all files of the package, wherever it lies, and a false report makes users delete code that is needed.",
  [UF, PKG], [("scan_symbols, parse_namespace_exports, compute_unused_functions", UF), ("compute_package_analysis", PKG), ("filter of many reports", "crates/jarl/src/commands/check.rs")], ["stdout of jarl check"])
DF = "crates/jarl-core/src/lints/base/duplicated_function_definition/duplicated_function_definition.rs"
P("P25", "Every repeated definition of a function of a package is reported",
  "In a package, each top-level function definition in R/ whose name an earlier definition in R/ (in order of files, then of lines) already has is reported once, where it stands, and names the file, row and column of the first one. Local functions, other assignments, other directories and other projects do not count; excluded files define functions but nothing is reported in them.",
  ["inputs", "configurations"], "for every set of definitions over the files of a package", "Tests have two files with one definition each; order, files, exclusion and what counts as a definition interact.",
  [DF, PKG], [("scan_top_level_assignments, compute_package_duplicate_assignments", DF), ("compute_package_analysis", PKG)], ["stdout of jarl check"])
LINTS = "crates/jarl-core/src/lints"
UA = "crates/jarl-core/src/utils_ast.rs"
AE = "crates/jarl-core/src/analyze/expression.rs"
P("P34", "Rules report their documented code everywhere and fixes keep its meaning",
  "Code that a rule's documentation shows as a violation is reported exactly once wherever it stands: in calls, arguments, function bodies, conditions, subsets, operands, pipes, called or accessed expressions. Its fix gives the documented alternative, whatever expression the code is about and whatever operators are around it, so that operators keep their operands and the code around keeps its structure. The alternative itself is not reported.",
  ["inputs"], "for every rule, expression it is about and place in a program", "Tests lint single statements; precedence of operators and the walk over nested expressions only show when rules, operands and contexts are combined, and a fix that regroups operators silently changes a program.",
  [LINTS, AE, UA], [("check_expression", AE), ("replace_in_context, replace_by_expression, parent_is_bang_unary", UA)], ["get_checks: diagnostics and fixes"])
UT = "crates/jarl-core/src/utils.rs"
P("P35", "Fixes lose no arguments or comments, and odd calls do no harm",
  "A fix keeps every argument and every comment of the code it replaces, or it is not offered; fixed code has no empty or repeated arguments and parses. Code with pipes is fixed only if, and as, the same call without pipes is. Calls with any number of unnamed, named, empty or valueless arguments never make a file that parses impossible to lint.",
  ["inputs"], "for every call of the functions rules are about, with any further arguments, comments and pipes", "Tests call functions with the usual arguments; users pass others by name or position, by pipe, with comments between them, and a fix that drops one loses code without notice.",
  [LINTS, UT, "crates/jarl-core/src/analyze/call.rs"], [("get_nested_functions_content, drop_arg_by_name_or_position, node_contains_comments", UT), ("call", "crates/jarl-core/src/analyze/call.rs")], ["get_checks: diagnostics and fixes"])
P("P36", "Rules judge formats, patterns, numbers and names by what they mean in R",
  "`sprintf` formats are reported exactly if R rejects them, they take no argument, or the number of arguments is not the one they take; calls with patterns are given `fixed = TRUE` only if neither a character of the pattern nor another argument needs a regular expression, and are reported whenever that is so. Numbers count by their value and names by what they name, however they are written (hexadecimal, with exponent or `L`, quoted, backquoted). Functions that differ in one letter from those a rule is about are not reported, and no such literal, name or callee keeps a file from being checked.",
  ["inputs"], "for every format, pattern, number and name", "Tests show a few literals each; formats and numbers are small languages of their own, and one that is misread is reported wrongly, gets a fix that changes what the program does, or makes the whole file unlintable.",
  [LINTS, UT], [("parse_sprintf_format", LINTS + "/base/sprintf/sprintf.rs"), ("is_fixed_pattern", LINTS + "/base/fixed_regex/fixed_regex.rs"), ("evaluate_constant_condition", LINTS + "/base/if_always_true/if_always_true.rs"), ("duplicated_arguments", LINTS + "/base/duplicated_arguments/duplicated_arguments.rs"), ("get_function_name, get_arg_by_name_then_position", UT)], ["get_checks: diagnostics and fixes"])
RO = "crates/jarl-core/src/rule_options/mod.rs"
P("P37", "Options of rules mean what they say, and what means nothing is an error",
  "A list of functions in a rule's section of jarl.toml replaces the rule's default list, its `extend-` form adds to it, and either applies to calls with a namespace too; giving both is an error. `operator`, or the older `assignment`, sets which assignments are reported, `--assignment` overrides it, and the older forms are called deprecated. An unknown section or key, a value of the wrong kind and a file that cannot be read are errors that name the file and what is wrong in it, and nothing is checked then.",
  ["configurations"], "for every combination of lists, operator and key", "Tests show one option at a time in a valid file; a list that is mixed up with another's or a misspelt key that is accepted silently switches off what the user asked for.",
  [RO, "crates/jarl-core/src/toml.rs", "crates/jarl-core/src/config.rs"], [("resolve_with_extend", RO), ("parse_jarl_toml, into_settings", "crates/jarl-core/src/toml.rs"), ("parse_assignment_cli", "crates/jarl-core/src/config.rs")], ["stdout, stderr and exit status of jarl check"])
P("P12", "Fixing comes to an end and leaves what the rules suggest",
  "Fixing with `--fix --unsafe-fixes` ends; what it leaves parses, and what is reported then is about the text that it leaves. After at most three more runs nothing that can be fixed is left, and fixing changes nothing any more. When a violation is inside another, and both can be fixed, one run replaces both: the alternative of one stands in the alternative of the other.",
  ["inputs", "histories"], "for every violation in the place of a name of every other one", "Tests fix each rule on its own; nested fixes overlap, so the result depends on ranges, order and repetition, and a mistake corrupts the user's file.",
  [FIX, CK, LINTS], [("apply_fixes", FIX), ("lint_fix", CK)], ["the file after check with fix", "diagnostics of check"])
UR = LINTS + "/base/unreachable_code"
P("P26", "Code is reported as unreachable exactly if no run of the program gets there",
  "In a function each statement behind `return`, `break`, `next`, a call of a stopping function, or an `if` all of whose branches end so, and each branch that a constant condition never takes, and at the top level of a file all of these but what is behind `return`, is covered by one report of unreachable_code, whose message names what precedes it. Code that can run for some values of the conditions and some number of rounds of each loop is never covered. Statements that only look like ones that end something (`x$stop()`, `return` without a call, a stopping function as an argument or in a nested function) change nothing.",
  ["inputs"], "for every nesting of conditions, loops, functions and jumps", "Tests show single jumps; reachability is a property of the whole control flow, and a wrong edge of the graph makes live code look dead, which users then delete.",
  [UR], [("CfgBuilder", UR + "/cfg/builder.rs"), ("find_unreachable_code, determine_unreachable_reason", UR + "/cfg/reachability.rs"), ("unreachable_code_top_level", UR + "/unreachable_code.rs")], ["get_checks: diagnostics"])
IA = LINTS + "/base/implicit_assignment/implicit_assignment.rs"
P("P38", "Rules about where code stands look at the right place",
  "An assignment is reported as implicit exactly when its value is used: in an argument (unless the closest call is of a function to skip) or in what `if`, `while` or `for` look at, but not as a statement of a block or the body of an `if` or loop, however deeply these are nested. `&` and `|` are reported exactly as the operation that is the condition of `if` or `while`, unless an operand is made for bitwise operations; the index of a loop exactly if an enclosing loop or its own sequence uses that name. An `if` in an `if` is reported exactly if it is all there is in the other's block and neither has an `else`.",
  ["inputs"], "for every nesting of statements and expressions", "Tests have one level of nesting; where code stands depends on all that is around it.",
  [LINTS, UA], [("implicit_assignment", IA), ("vector_logic", LINTS + "/base/vector_logic/vector_logic.rs"), ("for_loop_index", LINTS + "/base/for_loop_index/for_loop_index.rs"), ("unnecessary_nesting", LINTS + "/base/unnecessary_nesting/unnecessary_nesting.rs"), ("AstNodeExt", UA)], ["get_checks: diagnostics"])
