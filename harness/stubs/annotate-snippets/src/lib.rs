//! Stand-in for annotate-snippets 0.11: the builder API jarl uses and a plain
//! renderer for one annotation per snippet.
use std::fmt;
use std::ops::Range;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Level { Error, Warning, Info, Note, Help }
impl Level {
    pub fn title(self, t: &str) -> Message<'_> { Message { level: self, title: t, id: None, snippets: Vec::new(), footers: Vec::new() } }
    pub fn span<'a>(self, r: Range<usize>) -> Annotation<'a> { Annotation { range: r, label: None } }
    fn name(self) -> &'static str {
        match self { Level::Error => "error", Level::Warning => "warning", Level::Info => "info", Level::Note => "note", Level::Help => "help" }
    }
}
pub struct Annotation<'a> { pub range: Range<usize>, pub label: Option<&'a str> }
impl<'a> Annotation<'a> { pub fn label(mut self, l: &'a str) -> Self { self.label = Some(l); self } }
pub struct Snippet<'a> { pub source: &'a str, pub origin: Option<&'a str>, pub annotations: Vec<Annotation<'a>>, pub first: usize }
impl<'a> Snippet<'a> {
    pub fn source(s: &'a str) -> Self { Snippet { source: s, origin: None, annotations: Vec::new(), first: 1 } }
    pub fn line_start(mut self, n: usize) -> Self { self.first = n; self }
    pub fn annotations(mut self, a: impl IntoIterator<Item = Annotation<'a>>) -> Self { self.annotations.extend(a); self }
    pub fn origin(mut self, o: &'a str) -> Self { self.origin = Some(o); self }
    pub fn fold(self, _: bool) -> Self { self }
    pub fn annotation(mut self, a: Annotation<'a>) -> Self { self.annotations.push(a); self }
}
pub struct Message<'a> { pub level: Level, pub title: &'a str, pub id: Option<&'a str>, pub snippets: Vec<Snippet<'a>>, pub footers: Vec<Message<'a>> }
impl<'a> Message<'a> {
    pub fn snippet(mut self, s: Snippet<'a>) -> Self { self.snippets.push(s); self }
    pub fn id(mut self, i: &'a str) -> Self { self.id = Some(i); self }
    pub fn snippets(mut self, s: impl IntoIterator<Item = Snippet<'a>>) -> Self { self.snippets.extend(s); self }
    pub fn footers(mut self, m: impl IntoIterator<Item = Message<'a>>) -> Self { self.footers.extend(m); self }
    pub fn footer(mut self, m: Message<'a>) -> Self { self.footers.push(m); self }
}
#[derive(Clone, Copy, Debug)]
pub struct Renderer { styled: bool }
impl Renderer {
    pub const fn plain() -> Self { Renderer { styled: false } }
    pub const fn styled() -> Self { Renderer { styled: true } }
    pub fn render<'a>(&self, m: Message<'a>) -> Rendered { let _ = self.styled; Rendered(render(&m)) }
}
pub struct Rendered(String);
impl fmt::Display for Rendered { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }

fn pad(n: usize) -> String { " ".repeat(n) }
fn width(s: &str) -> usize { s.chars().count() }
fn render(m: &Message<'_>) -> String {
    let mut out = match m.id {
        Some(i) => format!("{}[{i}]: {}", m.level.name(), m.title),
        None => format!("{}: {}", m.level.name(), m.title),
    };
    let mut gw = 0;
    for s in &m.snippets {
        let lines: Vec<(usize, &str)> = {
            let mut v = Vec::new();
            let mut o = 0;
            for l in s.source.split_inclusive('\n') {
                let t = l.strip_suffix('\n').unwrap_or(l);
                v.push((o, t.strip_suffix('\r').unwrap_or(t)));
                o += l.len();
            }
            if v.is_empty() { v.push((0, "")); }
            v
        };
        let find = |p: usize| lines.iter().rposition(|(o, _)| *o <= p).unwrap_or(0);
        let col = |l: usize, p: usize| { let (o, t) = lines[l]; let e = (p - o).min(t.len()); width(&s.source[o..o + e]) };
        for a in &s.annotations {
            let (ls, le) = (find(a.range.start), find(a.range.end.max(a.range.start)));
            let le = if le > ls && lines[le].0 == a.range.end { le - 1 } else { le };
            gw = (le + s.first).to_string().len();
            if let Some(o) = s.origin { out.push_str(&format!("\n{}--> {o}:{}:{}", pad(gw), ls + s.first, col(ls, a.range.start) + 1)); }
            out.push_str(&format!("\n{} |", pad(gw)));
            let num = |l: usize| format!("{:>w$}", l + s.first, w = gw);
            let label = a.label.unwrap_or("");
            if ls == le {
                let (cs, ce) = (col(ls, a.range.start), col(ls, a.range.end));
                out.push_str(&format!("\n{} | {}", num(ls), lines[ls].1.replace('\t', "    ")));
                let tabs = lines[ls].1.chars().take(cs).filter(|c| *c == '\t').count();
                out.push_str(&format!("\n{} | {}{} {}", pad(gw), pad(cs + 3 * tabs), "-".repeat((ce - cs).max(1)), label).trim_end());
            } else {
                let ce = col(le, a.range.end);
                let cs = col(ls, a.range.start);
                let at_start = lines[ls].1.chars().take(cs).all(char::is_whitespace);
                for l in ls..=le {
                    if le - ls + 1 > 5 && l >= ls + 2 && l + 1 < le {
                        if l == ls + 2 { out.push_str(&format!("\n{:<w$}|", "...", w = gw + 3)); }
                        continue;
                    }
                    let mark = if l == ls { if at_start { "/" } else { " " } } else { "|" };
                    out.push_str(format!("\n{} | {} {}", num(l), mark, lines[l].1).trim_end());
                    if l == ls && !at_start { out.push_str(&format!("\n{} |  {}-", pad(gw), "_".repeat(cs + 1))); }
                }
                out.push_str(format!("\n{} | |{}- {}", pad(gw), "_".repeat(ce), label).trim_end());
            }
            out.push_str(&format!("\n{} |", pad(gw)));
        }
    }
    for f in &m.footers {
        let head = format!("{} = {}: ", pad(gw), f.level.name());
        let body = f.title.replace('\n', &format!("\n{}", pad(head.len())));
        out.push_str(&format!("\n{head}{body}"));
    }
    out
}
