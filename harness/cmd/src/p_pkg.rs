//! Rules about a whole package: unused functions and duplicated definitions.
use crate::rt::*;
use crate::*;

const ROOTS: [(&str, &str); 4] = [("/w", ""), ("/w/src/pkg", "src/pkg/"), ("/w/tests/pkg", "tests/pkg/"), ("/w/inst/tests", "inst/tests/")];
const NAMES: [&str; 5] = ["foo", "a.b_c1", "été", ".foo", "as.foo.bar"];
/// How the subject is defined, @ being its name; not all are at column 1.
const DEFS: [&str; 5] = ["@ <- function(x) 1\n", "@ = \\(x) 1\n", "y <- 2\n@<-function (x) {\n  1\n}\n", "\r\n@ <- function(x) 1\r\n", "# é\n@ <- function(\n  x\n) 1"];
/// Files that may use it, and how; the last column says whether it is used.
const USES: [(&str, &str, bool); 17] = [
    ("R/b.R", "x <- 1\n", false),
    ("R/b.R", "x <- @(1)\n", true),
    ("R/b.R", "f <- function(x) {\n  lapply(x, @)\n}\nexport_me()\n", true),
    ("R/b.R", "do.call(\"@\", 1)\n", true),
    ("R/b.R", "#' \\Sexpr{@(1)}\nNULL\n", true),
    ("R/b.R", "z.@z <- 1\n", false),
    ("R/b.R", "z <- 1 # é\n1+@(2)", true),
    ("R/sub/b.R", "x <- 1\n", false),
    ("tests/testthat/test-a.R", "test_that('a', {\n  @()\n})\n", true),
    ("tests/a.r", "pkg:::@()\n", true),
    ("inst/tinytest/test_a.R", "x |> @()\n", true),
    ("inst/tests/test_a.R", "x$@\n", true),
    ("src/a.cpp", "Function f = env[\"@\"];\n", true),
    ("src/lib/a.h", "x = @;\n", true),
    ("data-raw/a.R", "x <- 1\n", false),
    // The generic it may be a method of.
    ("R/b.R", "x <- as.foo(1)\n", false),
    ("R/b.R", "x <- 1 + a(1)\n", false),
];
/// Lines of NAMESPACE, and whether they export the subject.
const EXPORTS: [(&str, bool); 18] = [
    ("", false),
    ("export(@)\n", true),
    ("# export(@)\nexport(other)\n", false),
    ("export(\"@\")\n", true),
    ("export(a,@ , c)\n", true),
    ("export(\n  a,\n  @,\n  c\n)\n", true),
    ("export(a); export(@)\n", true),
    ("export(@) # all (of them)\n", true),
    ("if (getRversion() >= \"4.4.0\") export(@)\n", true),
    ("exportPattern(\"^[^z]\")\n", true),
    ("exportPattern(\"^z\")\n", false),
    ("exportPattern(\"^z\", \"^.?[[:alpha:]]+\")\n", true),
    ("S3method(print, zzz, @)\n", true),
    ("import(@)\nimportFrom(@, a)\n", false),
    ("exportMethods(@)\n", true),
    ("useDynLib(pkg, .registration = TRUE)\nexport(@)\r\n", true),
    ("export('a',\n       '@')\n", true),
    ("export(`@`)\n", true),
];
fn unused() {
    mockfs::reset();
    let wide = param(0);
    let (root, rel) = ROOTS[if wide == 1 { choose(4) } else { choose(2) }];
    let name = NAMES[choose(5)];
    let def = DEFS[if wide == 2 { choose(5) } else { 0 }].replace('@', name);
    let (path, used, uses) = USES[if wide == 1 || wide == 3 { choose(USES.len()) } else { choose(2) }];
    let (ns, exported) = EXPORTS[if wide == 0 || wide == 3 { choose(EXPORTS.len()) } else { choose(2) }];
    // Its own file may be all that is checked, or the user's be excluded.
    let scope = if wide == 2 { choose(4) } else { 0 };
    mockfs::add_file(&format!("{root}/DESCRIPTION"), b"Package: pkg\nVersion: 1.0\n");
    mockfs::add_file(&format!("{root}/NAMESPACE"), ns.replace('@', name).as_bytes());
    mockfs::add_file(&format!("{root}/R/a.R"), def.as_bytes());
    mockfs::add_file(&format!("{root}/{path}"), used.replace('@', name).as_bytes());
    if scope == 1 {
        mockfs::add_file(&format!("{root}/jarl.toml"), format!("[lint]\nexclude = [\"{path}\"]\n").as_bytes());
    }
    let mut skip = false;
    if scope == 2 {
        mockfs::add_file(&format!("{root}/jarl.toml"), b"[lint.unused_function]\nskipped-functions = [\"^a\", \"o$\"]\n");
        skip = name.starts_with('a') || name.ends_with('o');
    }
    let arg = if scope == 3 { format!("{root}/R/a.R") } else { root.to_string() };
    let r = crate::run(&[&arg, "--select", "unused_function", "--output-format", "concise"]);
    note(|| format!("{root} {name:?} {def:?} {path} {used:?} {ns:?} scope {scope}\n{}{}", r.out, r.err));
    let reps = concise(&r.out);
    let mine: Vec<&Rep> = reps.iter().filter(|x| x.path == format!("{rel}R/a.R")).collect();
    let words = |text: &str, w: &str| text.split(|c: char| !c.is_alphanumeric() && c != '.' && c != '_').any(|x| x == w);
    let method = name.match_indices('.').any(|(p, _)| p > 0 && words(used, &name[..p]));
    let is_used = exported || uses || skip || method;
    if method {
        reach("method");
    }
    if is_used {
        check(mine.is_empty(), "a_used_function_is_not_reported");
        reach("used");
    } else {
        check(mine.len() == 1, "a_function_that_occurs_nowhere_else_is_reported");
        let row = 1 + def.find(name).map(|i| def[..i].matches('\n').count()).unwrap();
        check(mine.len() != 1 || mine[0].row == row && mine[0].col == 1 && mine[0].msg.contains(name), "it_is_reported_where_it_is_defined");
        reach("unused");
    }
    check(r.code == Some(!reps.is_empty() as u8), "the_exit_status_says_so");
}
/// Helpers of the tests.
fn helpers() {
    mockfs::reset();
    let (root, rel) = ROOTS[choose(4)];
    let dir = ["tests/testthat", "tests", "inst/tinytest", "inst/tests/deep"][choose(4)];
    let name = NAMES[choose(3)];
    let r_file = choose(3);
    mockfs::add_file(&format!("{root}/DESCRIPTION"), b"Package: pkg\nVersion: 1.0\n");
    mockfs::add_file(&format!("{root}/NAMESPACE"), [String::new(), format!("export({name})\n")][flag() as usize].as_bytes());
    mockfs::add_file(&format!("{root}/R/a.R"), ["x <- 1\n".into(), format!("x <- {name}(1)\n"), format!("{name} <- function() 2\nx <- {name}()\n")][r_file].as_bytes());
    mockfs::add_file(&format!("{root}/{dir}/helper.R"), DEFS[choose(5)].replace('@', name).as_bytes());
    let used = choose(3);
    if used > 0 {
        mockfs::add_file(&format!("{root}/{}/test-b.R", if used == 1 || dir == "tests" { dir } else { &dir[..dir.rfind('/').unwrap()] }), format!("expect_equal({name}(2), 1)\n").as_bytes());
    }
    let r = crate::run(&[root, "--select", "unused_function", "--output-format", "concise"]);
    note(|| format!("{root} {dir} {name:?} {r_file} {used}\n{}{}", r.out, r.err));
    let reps = concise(&r.out);
    let mine: Vec<&Rep> = reps.iter().filter(|x| x.path == format!("{rel}{dir}/helper.R")).collect();
    // Beside the directory the rule looks at, such as inst/, is not a use.
    if used == 1 || used == 2 && dir != "inst/tinytest" {
        check(mine.is_empty(), "a_used_function_is_not_reported");
        reach("used");
    } else if used == 0 {
        check(mine.len() == 1, "a_function_that_occurs_nowhere_else_is_reported");
        reach("unused");
    }
    check(reps.iter().all(|x| x.path.ends_with("helper.R")), "other_files_are_not_reported");
}
/// Many of them are probably not unused.
fn threshold() {
    mockfs::reset();
    let n = choose(5);
    let mut text = String::from("any(is.na(x))\n");
    for i in 0..n {
        text.push_str(&format!("f{i} <- function() 1\n"));
    }
    // More than the default threshold.
    let big = flag();
    if big {
        for i in 0..50 {
            text.push_str(&format!("g{i} <- function() 1\n"));
        }
    }
    let n = n + if big { 50 } else { 0 };
    mockfs::add_file("/w/DESCRIPTION", b"Package: pkg\n");
    mockfs::add_file("/w/NAMESPACE", b"");
    mockfs::add_file("/w/R/a.R", text.as_bytes());
    let limits = [None, Some(0), Some(2), Some(51), Some(10000)];
    let limit = limits[choose(5)];
    let (toml, mut explicit) = [("", false), ("select = [\"unused_function\", \"any_is_na\"]\n", true), ("extend-select = [\"unused_function\"]\n", true), ("select = [\"ALL\"]\n", false), ("select = [\"any_is_na\"]\nextend-select = [\"SUSP\", \"unused_function\"]\n", true)][choose(5)];
    let mut conf = format!("[lint]\n{toml}");
    if let Some(l) = limit {
        conf.push_str(&format!("[lint.unused_function]\nthreshold-ignore = {l}\n"));
    }
    mockfs::add_file("/w/jarl.toml", conf.as_bytes());
    let (args, says): (&[&str], Option<bool>) = [
        (&[][..], None),
        (&["--select", "any_is_na, unused_function"][..], Some(true)),
        (&["--extend-select", "unused_function"][..], Some(true)),
        (&["--select", "ALL"][..], Some(false)),
    ][choose(4)];
    // On the command line the rule may be named, too.
    if says == Some(true) {
        explicit = true;
    }
    let (formats, human): (&[&str], bool) = [(&["--output-format", "concise"][..], true), (&["--output-format", "json"][..], false), (&["--statistics"][..], false)][choose(3)];
    let mut v = vec!["."];
    v.extend_from_slice(args);
    v.extend_from_slice(formats);
    let on = args.len() > 0 || toml != "";
    let r = crate::run(&v);
    let hidden = !explicit && n > limit.unwrap_or(50);
    note(|| format!("{v:?} n {n} {conf:?} hidden {hidden}\n{}{}", r.out, r.err));
    let shown = match formats[1.min(formats.len() - 1)] {
        "concise" => concise(&r.out).iter().filter(|x| x.rule == "unused_function").count(),
        "json" => {
            let v: serde_json::Value = serde_json::from_str(&r.out).unwrap();
            v["diagnostics"].as_array().unwrap().iter().filter(|d| d["message"]["name"] == "unused_function").count()
        }
        _ => r.out.lines().find(|l| l.ends_with("] unused_function")).map_or(0, |l| number(l.split_once('[').unwrap().0.trim())),
    };
    let want = if hidden || !on { 0 } else { n };
    check(shown == want || !on && (shown == 0 || shown == n), "more_than_the_threshold_are_hidden_unless_asked_for");
    check(r.out.contains("any_is_na"), "other_violations_stay");
    check(!human || !on || r.out.contains(&format!("{n} `unused_function` diagnostics hidden")) == hidden, "what_is_hidden_is_said");
    check(human || !r.out.contains("diagnostics hidden"), "structured_output_stands_alone");
    reach(if hidden { "hidden" } else { "shown" });
}
/// Top-level statements, and the functions each defines at which row.
const TOP: [(&str, &[(&str, usize)], usize); 12] = [
    ("foo <- function(x) 1\n", &[("foo", 0)], 1),
    ("bar = function(x) {\n  foo <- function(y) 2\n}\n", &[("bar", 0)], 3),
    ("foo<-\\(x) x\n", &[("foo", 0)], 1),
    ("foo <- 1\n", &[], 1),
    ("foo == function(x) 1\n", &[], 1),
    ("# foo <- function(x) 1\n", &[], 1),
    ("foo <- functional(x)\n", &[], 1),
    ("foo.bar <- function() 1\nfoo_bar <- function() 1\n", &[("foo.bar", 0), ("foo_bar", 1)], 2),
    ("local({\n  foo <- function(x) 1\n})\n", &[], 3),
    ("\r\nfoo  =  function (x) 1\r\n", &[("foo", 1)], 2),
    ("été <- function(x) \"é\"; 1\n", &[("été", 0)], 1),
    ("foo(function(x) 1)\nx$foo <- function(y) 1\n", &[], 2),
];
fn duplicates() {
    mockfs::reset();
    let n = param(0);
    let files = ["R/a.R", "R/b.r", "R/sub/c.R", "tests/d.R"];
    let (root, rel) = ROOTS[choose(2)];
    let pkg = flag();
    if pkg {
        mockfs::add_file(&format!("{root}/DESCRIPTION"), b"Package: pkg\n");
    }
    let k = if param(1) == 1 { 4 } else { 2 };
    // Excluded files still define functions; nothing is said about them.
    let excluded = choose(k + 1);
    if excluded < k {
        mockfs::add_file(&format!("{root}/jarl.toml"), format!("[lint]\nexclude = [\"{}\"]\n", files[excluded]).as_bytes());
    }
    let mut seen: Vec<(&str, String, usize)> = Vec::new();
    let mut want: Vec<(String, usize, &str, usize, String)> = Vec::new();
    for (i, f) in files[..k].iter().enumerate() {
        let mut text = String::new();
        let mut row = 1;
        for j in 0..n {
            let (code, defs, rows) = TOP[if i < 2 && j == 0 { choose(TOP.len()) } else { choose(3) }];
            text.push_str(code);
            for (name, r) in defs {
                if i < 2 && pkg {
                    match seen.iter().find(|s| s.0 == *name) {
                        Some(s) if excluded != i => want.push((format!("{rel}{f}"), row + r, name, s.2, s.1.clone())),
                        Some(_) => {}
                        None => seen.push((name, format!("{rel}{f}"), row + r)),
                    }
                }
            }
            row += rows;
        }
        mockfs::add_file(&format!("{root}/{f}"), text.as_bytes());
    }
    let r = crate::run(&[root, "--select", "duplicated_function_definition", "--output-format", "json"]);
    note(|| format!("{want:?}\n{}{}", r.out, r.err));
    let v: serde_json::Value = serde_json::from_str(&r.out).unwrap();
    let d = v["diagnostics"].as_array().unwrap();
    check(d.len() == want.len(), "every_further_definition_is_reported_and_nothing_else");
    check(
        want.iter().all(|w| d.iter().filter(|g| g["filename"] == w.0 && g["location"]["row"] == w.1 && g["location"]["column"] == 0 && g["message"]["body"].as_str().unwrap().contains(w.2)).count() == 1),
        "it_is_reported_where_it_is_defined",
    );
    check(
        want.iter().all(|w| d.iter().any(|g| g["filename"] == w.0 && g["location"]["row"] == w.1 && g.to_string().contains(&format!("{}:{}:1", w.4, w.3)))),
        "it_names_the_first_definition",
    );
    check(r.code == Some(!want.is_empty() as u8), "the_exit_status_says_so");
    reach(if want.is_empty() { "unique" } else { "duplicate" });
}
pub fn run(i: u32) {
    match i {
        40 => unused(),
        41 => helpers(),
        42 => threshold(),
        43 => duplicates(),
        _ => {}
    }
}
