//! Stand-in for insta, only used to validate the other stand-ins.
pub fn norm_inline(s: &str) -> String {
    let lines: Vec<&str> = s.lines().collect();
    if lines.len() < 2 {
        return s.trim().to_string();
    }
    let ind = lines.iter().skip(1).filter(|l| !l.trim().is_empty()).map(|l| l.len() - l.trim_start().len()).min().unwrap_or(0);
    let v: Vec<String> = lines.iter().enumerate().map(|(i, l)| if i == 0 { l.trim_start().to_string() } else { l.get(ind..).unwrap_or("").to_string() }).collect();
    trim(&v.join("\n"))
}
pub fn trim(s: &str) -> String {
    s.lines().map(|l| l.trim_end()).collect::<Vec<_>>().join("\n").trim_matches('\n').trim_end().to_string()
}
pub fn compare(value: &str, want: &str) {
    if trim(value) != want {
        panic!("SNAPSHOT\n--- got\n{}\n--- want\n{}\n---", trim(value), want);
    }
}
pub fn file(src: &str, module: &str, name: &str, value: &str) {
    let src = std::path::Path::new(src);
    let dir = if src.is_absolute() { src.parent().unwrap().to_path_buf() } else { std::path::Path::new("/").join(src.parent().unwrap()) };
    let f = dir.join("snapshots").join(format!("{}__{name}.snap", module.replace("::", "__")));
    let t = std::fs::read_to_string(&f).unwrap_or_else(|_| panic!("no snapshot {}", f.display()));
    let body = t.splitn(3, "---\n").nth(2).unwrap();
    compare(value, &trim(body));
}
#[macro_export]
macro_rules! assert_snapshot {
    ($v:expr, @$s:literal $(,)?) => {
        $crate::compare(&$v.to_string(), &$crate::norm_inline($s))
    };
    ($n:expr, $v:expr $(,)?) => {
        $crate::file(file!(), module_path!(), &$n, &$v.to_string())
    };
    ($v:expr $(,)?) => {
        $crate::file(file!(), module_path!(), "", &$v.to_string())
    };
}
