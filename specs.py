"""What each check runs: harness crate, run number, parameters (= bounds) per tier,
and the labels that must be reached (a run that reaches none of them proves nothing)."""
STD = ["The standard library, the allocator and third-party crates are executed from their own compiled IR; libc calls and a few LLVM intrinsics are modelled (engine/src/intr.rs).",
       "Inputs outside the stated length / template bounds are not covered."]
SPECS = {}
def prop(pid, prefixes, runs, assumptions=()):
    SPECS[pid] = dict(prefixes=prefixes, runs=runs, assumptions=list(assumptions) + STD)
def run(crate, idx, name, quick, thorough=None, reach=(), desc="", **kw):
    d = dict(crate=crate, run=idx, name=name, quick=quick, reach=list(reach), desc=desc, **kw)
    d["thorough"] = thorough if thorough is not None else quick
    return d

for pid, base in (("P01", 0), ("P02", 4)):
    prop(pid, ["rmd::extraction"], [
        run("rmd", base + 0, "free_text", [[11]], [[12]], ["chunk"], "every document of N characters over ` { } r R x space newline"),
        run("rmd", base + 1, "line_templates", [[3], [4]], [[3], [5]], ["chunk", "two_chunks"], "N lines out of 9 (7 when N > 3) fence-like templates with symbolic holes, LF or CRLF, last line terminated or not"),
        run("rmd", base + 2, "chunk_body", [[3]], [[4]], ["chunk"], "a complete chunk whose body has N symbolic or multi-byte characters"),
        run("rmd", base + 3, "chunk_header", [[3]], [[4]], ["chunk"], "symbolic indentation, fence, header and closing fence"),
    ])

KINDS = ["next", "chunk", "file", "start", "end", "blanket", "no_reason", "bad_name", "not"]
prop("P03", ["jcore::directive", "jcore::rule_set"], [
    run("core", 100, "grammar_pieces", [[2]], [[3]], KINDS, "prefix, keyword, rule and reason pieces with symbolic separators"),
    run("core", 101, "one_edit", [[]], [[]], KINDS, "every valid form with any one ASCII byte replaced, inserted or deleted"),
    run("core", 102, "all_rules", [[]], [[]], ["next", "chunk", "file", "start", "end"], "every registered rule in every directive kind"),
])
prop("P04", ["jcore::directive", "jcore::rule_set"], [
    run("core", 110, "item_pieces", [[3]], [[4]], ["chunk", "no_reason", "bad_name", "not"], "array items from pieces with symbolic separators"),
    run("core", 111, "item_one_edit", [[]], [[]], ["chunk", "no_reason", "bad_name", "not"], "array items with one edited byte"),
    run("core", 112, "header_one_edit", [[]], [[]], ["header", "not_header"], "the array header with one edited byte"),
])
prop("P06", ["jcore::description"], [
    run("core", 200, "dcf_lines", [[3]], [[4]], ["some", "none", "two"], "N lines out of 9 DESCRIPTION line templates with symbolic holes"),
    run("core", 201, "depends_value", [[4]], [[5]], ["some", "none", "two"], "a Depends field whose value has N-1 + N symbolic characters"),
    run("core", 202, "free_value", [[8]], [[9]], ["some", "none"], "every Depends value of N characters over R space ( > = 4 ) ,"),
])
prop("P05", ["jcore::rule_set"], [
    run("core", 300, "name_one_edit", [[]], [[]], ["known", "unknown"], "every rule name with any one ASCII byte replaced, inserted or deleted"),
    run("core", 301, "pairs", [[]], [[]], ["pair"], "every pair of registered rules"),
    run("core", 302, "categories", [[]], [[]], ["in", "out"], "every rule and category"),
    run("core", 303, "category_one_edit", [[]], [[]], ["known", "unknown"], "every category code with one edited byte"),
    run("core", 304, "statuses", [[]], [[]], ["documented", "deprecated"], "every rule against its documented metadata and fix / default predicates"),
    run("core", 305, "documented", [[]], [[]], ["documented"], "every documented rule"),
    run("core", 306, "sets", [[0], [3]], [[0], [5]], [], "rule sets of N rules out of 4"),
], ["The documented rule table (docs/rules.qmd at the pinned commit) is transcribed in harness/core/src/doc_rules.rs; three fix entries where documentation and code disagree are not judged."])
prop("P31", ["jcore::fs"], [
    run("core", 400, "extensions", [[4]], [[5]], ["r", "rmd"], "every ASCII extension of up to N characters"),
    run("core", 401, "file_names", [[6]], [[7]], ["r", "rmd"], "every path of N characters over r R m d q Q . /"),
    run("core", 402, "normalize", [[6]], [[7]], ["norm"], "every path of N characters over / . a b, alone or followed by /R/x.R"),
    run("core", 403, "relativize", [[4]], [[5]], ["inside", "outside"], "paths at, under, beside and outside the working directory with N symbolic characters"),
])

prop("P07", ["lsp::document"], [
    run("lsp", 100, "one_change", [[2, 1], [3, 1]], [[3, 1], [4, 1]], ["applied", "rejected", "full"], "one change with any position on a document of N characters (ASCII, CR, LF, 2-byte, 4-byte), every encoding", secs=300),
    run("lsp", 100, "two_changes", [[1, 2]], [[2, 2]], ["applied", "rejected", "full"], "two changes in one notification", secs=600),
])
prop("P08", ["lsp::document"], [
    run("lsp", 101, "to_offset", [[3], [4]], [[5], [6]], ["found", "nowhere"], "every position on documents of N characters (ASCII, CR, LF, 2-byte, 4-byte), every encoding"),
    run("lsp", 102, "from_offset", [[3], [4]], [[5], [6]], ["in", "out"], "every offset between characters of such documents"),
    run("lsp", 103, "keys", [[]], [[]], ["keys"], "every position encoding key"),
])
prop("P10", ["lsp::client"], [
    run("lsp", 200, "history", [[2], [3]], [[3], [4]], ["request", "notification", "notice", "notice_again", "response", "error", "handled", "cleanup", "diagnostics"], "every sequence of N operations on two clones of a client", secs=600),
], ["Single threaded: operations of the clones are interleaved, not concurrent. The clock stands still."])
prop("P22", ["cli::status", "cli::logging"], [
    run("cli", 0, "level_names", [[]], [[]], ["level", "not_a_level"], "every level name with any one ASCII byte replaced, inserted or deleted"),
    run("cli", 1, "exit_codes", [[]], [[]], ["status"], "every exit status"),
    run("cli", 2, "messages", [[]], [[]], ["shown", "hidden"], "every level against messages of jarl's and other crates at every level"),
])
prop("P30", ["zed::ext"], [
    run("zed", 0, "starts", [[1], [2]], [[2], [3]], ["cleaned", "downloaded", "fails", "found"], "N starts of the server, settings, PATH, platform, release assets and the extension's directory changing in between", secs=600),
], ["zed_extension_api is replaced by a stand-in that records what it is asked; the file system is an in-memory one behind libc."])
FULL = ["jarl's own crates are compiled unchanged from /repo; crates that are not available offline (air's parser and syntax tree, biome_rowan, biome_formatter, rayon, ignore, git2, annotate-snippets, colored, etcetera) are replaced by the stand-ins in harness/stubs. With them jarl's own unit and integration tests pass (347 of 347, 83 of 83, 156 of 159: two are about clap's help text, one about a snapshot macro), but a difference between a stand-in and the real crate is outside what is decided."]
prop("P11", ["jarl_core::fix"], [
    run("full", 10, "splice", [[3, 2]], [[4, 2], [2, 3]], ["one_pass", "left_out", "no_fix"], "any K fixes, in any order, on any text of N characters (ASCII, newline, 2-byte, 4-byte)"),
], FULL)
prop("P14", ["jarl_core::check", "jarl_core::utils", "jarl_core::location"], [
    run("full", 0, "r_file", [[1], [2]], [[3]], ["diagnostic", "fix", "clean", "syntax_error"], "R documents of N pieces out of 14 with symbolic bytes, LF or CRLF, last line terminated or not, all rules on"),
    run("full", 1, "rmd_file", [[2]], [[3]], ["diagnostic", "clean"], "R Markdown documents of N pieces out of 9", secs=300),
], FULL)
prop("P13", ["jarl_core::vcs", "jarl_core::check"], [
    run("full", 12, "version_control", [[0]], [[1]], ["fixed", "refused"], "two of three files, up to two (thorough: three) nested or separate repositories, each with a clean, modified, untracked, ... file whose name may not be UTF-8, every flag"),
], FULL)
prop("P15", ["jarl_core::config"], [
    run("full", 20, "selection", [[0, 0], [1, 1], [2, 0], [3, 0], [4, 0], [5, 0], [6, 0]], None, ["selected", "rejected"], "any three of the six lists out of 10 values each, three R versions, every rule"),
    run("full", 21, "typo", [[]], None, ["known", "unknown"], "a rule name with any one byte replaced, in each of the eight lists"),
], FULL)
prop("P16", ["jarl_core::config", "jarl_core::check", "jarl_core::fix"], [
    run("full", 11, "gating", [[1, 0], [1, 1], [2, 0]], [[1, 0], [2, 1], [3, 0]], ["fixed", "reported", "fix_only"], "files of N statements out of 7 (safe, unsafe, no fix, suppressed), R or R Markdown, every flag, 5 fixable and 5 unfixable lists", secs=300),
], FULL)
prop("P17", ["jarl_core::config", "jarl_core::description"], [
    run("full", 22, "version", [[4], [5]], [[5], [6], [7]], ["version", "not_a_version"], "every version string of N characters over 0 1 4 9 . x space"),
    run("full", 23, "version_of_project", [[]], None, ["version", "no_version"], "one or two DESCRIPTION files in four directories with a symbolic version, four places of the file, with and without --min-r-version"),
], FULL)
for pid, m in (("P18", 0), ("P19", 1)):
    prop(pid, ["jarl_core::suppression", "jarl_core::check", "jarl_core::analyze"], [
        run("full", 30, "r_lines", [[4, 0, m], [3, 1, m], [4, 2, m], [3, 3, m]], [[5, 0, m], [4, 1, m], [4, 2, m], [3, 3, m]], ["reported", "suppressed", "outdated", "wrong"], "N lines out of 8, 13, 9 and 22 kinds (code with violations, blocks, calls, every kind of suppression comment), indented or not, last line terminated or not", secs=800),
        run("full", 31, "rmd_chunks", [[2, m]], [[3, m]], ["reported", "suppressed", "outdated", "wrong"], "R Markdown documents of N chunks out of 16, with text or another language's chunk between them"),
    ] + ([run("full", 32, "split", [[]], None, ["reported", "suppressed"], "two comments out of 7 anywhere before, within or behind 3 expressions over several lines")] if m == 0 else []) + [
        run("full", 33, "anywhere", [[1, m]], [[2, m]], ["reported", "suppressed"], "up to N comments out of 10, each before, between or behind the lines of 14 programs", secs=800),
    ], FULL)
prop("P23", ["jarl_core::discovery", "jarl::commands"], [
    run("cmd", 0, "configurations", [[0]], [[0]], ["user", "configured", "default", "excluded"], "`jarl check` on 9 lists of paths in a tree of 13 files with any of 4 configurations"),
    run("cmd", 0, "patterns", [[1]], [[1]], ["user", "configured", "default", "excluded"], "one of up to 2 configurations restricts its files by exclude, include or default-exclude patterns", secs=600),
    run("cmd", 1, "gitignored", [[]], None, ["kept", "ignored"], "7 files, `.gitignore` files with one of up to 7 patterns in 3 directories, a repository in none, one or two of them, 3 lists of paths", secs=600),
], FULL)
prop("P28", ["jarl::output_format", "jarl::statistics", "jarl::commands"], [
    run("cmd", 10, "output", [[1, 0], [2, 0], [1, 1]], [[2, 0], [1, 1], [1, 2], [2, 1]], ["concise", "json", "github", "full", "statistics", "broken"], "one to three files of N of 10 items each (violations of 4 rules on one line or several, several per line, nested; syntax errors; R Markdown), each output format, 4 configurations of fixable rules", secs=600),
    run("cmd", 11, "nothing", [[]], None, ["nothing"], "no file to check, each output format"),
], FULL)
prop("P20", ["jarl::commands", "jarl_core::suppression_edit"], [
    run("cmd", 20, "add", [[1, 0, 0], [1, 0, 1], [1, 1, 0]], [[1, 1, 0], [1, 1, 1], [2, 0, 0]], ["violation", "clean"], "`jarl check --add-jarl-ignore` on documents of N statements out of 36 templates (assignments, calls, conditions, loops, functions, pipes, blocks, comments, strings over two lines) filled with 11 expressions, LF, CRLF or no final newline, R and R Markdown", secs=800),
], FULL)
P13R = run("cmd", 30, "repositories", [[]], None, ["fixed", "refused"], "`jarl check` with --fix on files with their own or a shared configuration in one or two repositories or none, each file and its neighbour in any state, every flag", secs=600)
SPECS["P13"]["runs"].append(P13R)
prop("P24", ["jarl_core::package", "jarl_core::lints"], [
    run("cmd", 40, "unused", [[0], [1], [2]], [[0], [1], [2], [3]], ["used", "unused"], "a package with one function under 4 names and 5 definitions, 18 forms of NAMESPACE, 15 other files that use it or not, in 4 directories, files excluded, not named or functions skipped", secs=800),
    run("cmd", 41, "helpers", [[]], None, ["used", "unused"], "helper functions of tests, used or not", secs=600),
    run("cmd", 42, "threshold", [[]], None, ["hidden", "shown"], "N unused functions against the threshold that ignores them", secs=600),
], FULL)
prop("P25", ["jarl_core::package", "jarl_core::lints"], [
    run("cmd", 43, "duplicates", [[1, 0]], [[2, 0], [1, 1]], ["unique", "duplicate"], "a package whose files define the same functions or not", secs=800),
], FULL)
prop("P34", ["jarl_core::lints", "jarl_core::analyze", "jarl_core::utils"], [
    run("full", 40, "rules", [[0], [3]], [[0], [1], [2]], ["reported", "fix"], "127 violations of 50 rules, with any one-letter name in one of 9 (5 when they bind tightly) other expressions, at one of 7 places, or in fewer of them at one of 48", secs=800),
    run("full", 41, "alternatives", [[0]], [[0], [1], [2]], ["alternative"], "their alternatives", secs=800),
], FULL)
prop("P35", ["jarl_core::lints", "jarl_core::analyze", "jarl_core::utils"], [
    run("full", 45, "args_are_kept", [[]], None, ["fixed", "piped"], "40 calls with one of 9 arguments more at every place of the outer or inner call, plain or with one or two pipes"),
    run("full", 48, "any_call", [[]], None, ["fixed"], "one of 4 arguments more in any call of 117 violations"),
    run("full", 49, "named", [[]], None, ["fixed"], "32 calls with their arguments in any order, each by any of its names or by position"),
    run("full", 46, "comments_are_kept", [[]], None, ["fixed"], "one comment before each token of 116 violations, and maybe another before or behind all"),
    run("full", 47, "odd_calls", [[1, 2]], [[1, 5], [2, 1]], ["fixed"], "66 functions (among them odd ones like `NULL` or `(\\(x) x)`) with up to N arguments out of 34, in M places", secs=3000),
], FULL)
prop("P36", ["jarl_core::lints", "jarl_core::utils"], [
    run("full", 50, "sprintf", [[5, 0], [4, 1], [4, 2]], [[6, 0], [5, 1], [5, 2]], ["invalid", "constant", "counted", "numbered"], "every format of N characters over % s d 1 2 $ * . - 0 y and space, alone (0) or behind one of 5 others (1), or `%` and N of # + space - 0 d . 1 s x (2), with 9 lists of arguments", secs=800),
    run("full", 51, "fixed_regex", [[2]], [[3]], ["fixed", "special", "plain"], "every pattern of up to N characters over 18 (special ones and quotes included), 7 functions, 15 further arguments, 6 replacements", secs=800),
    run("full", 52, "numbers", [[4]], [[5]], ["condition", "seq", "sample", "apply", "substr", "zero", "length", "all"], "every number of up to N characters over 0 1 2 . L e x -, in the places whose rules look at its value", secs=800),
    run("full", 53, "names", [[]], None, ["same", "different"], "two names of up to 2 characters, plain, backquoted or quoted, in 11 places where rules compare them"),
    run("full", 54, "short_true_and_false", [[]], None, ["short", "other", "object"], "such a name in 22 places where it is a value and 29 where it names something"),
    run("full", 55, "other_functions", [[]], None, ["other"], "the functions of 99 violations with any one letter replaced"),
    run("full", 56, "functions_with_repeated_arguments", [[]], None, ["fine", "repeated"], "7 functions with any one letter replaced"),
], FULL)
prop("P37", ["jarl_core::toml", "jarl_core::rule_options", "jarl_core::config", "jarl::commands"], [
    run("cmd", 50, "lists", [[0], [1]], None, ["applied", "both"], "one or two of 4 lists of functions replaced by or extended with one of 8 lists or both, 12 functions called plainly or with :: or :::, 4 rules", secs=600),
    run("cmd", 51, "operator", [[]], None, ["applied", "rejected"], "9 forms of the operator in the file, 4 on the command line, 2 output formats"),
    run("cmd", 52, "typo", [[]], None, ["known", "unknown"], "each of the 17 keys with any one character replaced, missing or added (16 characters)"),
    run("cmd", 53, "odd", [[]], None, ["accepted", "rejected", "unread"], "31 files with other sections, types or bytes, unreadable ones, in 3 places under 2 names, with or without a closer configuration"),
], FULL)
prop("P26", ["jarl_core::lints"], [
    run("full", 60, "flow", [[3, 3, 6, 0], [3, 3, 6, 1], [2, 12, 4, 0]], [[4, 3, 6, 0], [4, 3, 6, 1], [3, 12, 4, 0], [2, 12, 6, 1]], ["dead", "quiet"], "every program of up to N statements (simple, return or stop, break or next, if with or without else, for, while or repeat, function), with M conditions out of variables, constants and operations of them, of the first K kinds, in blocks or not, in a function (0) or at the top level (1)", secs=1800),
    run("full", 61, "goes_on", [[]], None, ["read"], "30 statements that end nothing, and 8 that do with any one letter replaced, in 4 places"),
], FULL)
prop("P38", ["jarl_core::lints", "jarl_core::utils_ast"], [
    run("full", 65, "assignments", [[2]], [[3]], ["statement", "used", "skipped"], "an assignment within up to N of 22 constructs", secs=800),
    run("full", 66, "logic", [[5]], [[12]], ["vector", "fine"], "8 operators between N operands each, in 18 places", secs=800),
    run("full", 67, "loops", [[2]], [[3]], ["for_loop_dup_index", "for_loop_index"], "up to N nested loops with 5 names, 16 sequences, and 8 things between them", secs=800),
    run("full", 68, "nesting", [[]], None, ["nested", "needed"], "`if`, `while` or `else if` around `if`, `while` or `repeat`, with or without `else`, blocks and other statements"),
], FULL)
prop("P12", ["jarl_core::fix", "jarl_core::check", "jarl_core::lints"], [
    run("full", 70, "nested", [[0], [2]], [[0], [1], [2], [3]], ["fixed", "odd"], "each violation of P34's list in the place of the names in each other one whose number is in the class modulo 4, the two rules selected", secs=800),
], FULL)
