//! Which statements can never run.
use crate::rt::*;
use crate::*;

const STOPS: [&str; 4] = ["stop(\"m\")", "rlang::abort(m)", "cli_abort(m)", "q()"];
/// Condition, and what it is if that is constant.
const CONDS: [(&str, Option<bool>); 12] = [
    ("c", None),
    ("TRUE", Some(true)),
    ("FALSE", Some(false)),
    ("TRUE || c", Some(true)),
    ("c && FALSE", Some(false)),
    ("c || FALSE", None),
    ("TRUE & c", None),
    ("(FALSE)", Some(false)),
    ("(TRUE && TRUE) | c", Some(true)),
    ("FALSE | (FALSE & c)", Some(false)),
    ("f(FALSE)", None),
    ("x == TRUE", None),
];
#[derive(Clone, Copy, PartialEq, Debug)]
enum Why {
    Return,
    Stop,
    Break,
    Next,
    Dead,
    Other,
}
#[derive(Clone, Copy)]
struct Ctx {
    /// Why this can't be reached.
    dead: Option<Why>,
    in_loop: bool,
    in_fun: bool,
    depth: usize,
}
struct Prog {
    text: String,
    /// Markers, and why they are not reached.
    marks: Vec<(usize, usize, Option<Why>)>,
    left: usize,
    conds: usize,
    kinds: usize,
    nested: bool,
    short: bool,
}
impl Prog {
    fn put(&mut self, s: &str) {
        self.text.push_str(s)
    }
    fn mark(&mut self, s: &str, c: &Ctx) {
        let at = self.text.len();
        self.put(s);
        self.marks.push((at, self.text.len(), c.dead));
    }
    /// Statements; why their end isn't reached.
    fn list(&mut self, c: Ctx, sep: &str) -> Option<Why> {
        let mut c = c;
        loop {
            self.put(sep);
            c.dead = self.statement(c);
            if self.left == 0 || !flag() {
                break c.dead;
            }
        }
    }
    /// What belongs to an `if`, loop or function.
    fn body(&mut self, c: Ctx, before_else: bool) -> Option<Why> {
        let c = Ctx { depth: c.depth + 1, ..c };
        // An empty block, one statement, or a block of some.
        if self.left == 0 {
            self.put("{}");
            return c.dead;
        }
        if flag() {
            // An `else` would belong to the closest `if`.
            self.short = before_else;
            return self.statement(c);
        }
        self.put("{");
        let d = self.list(c, "\n");
        self.put("\n}");
        d
    }
    fn cond(&mut self, c: &Ctx) -> Option<bool> {
        let (t, v) = CONDS[choose(self.conds)];
        self.put("(");
        self.mark(t, c);
        self.put(") ");
        v
    }
    /// Why what is behind it isn't reached.
    fn statement(&mut self, c: Ctx) -> Option<Why> {
        self.left -= 1;
        let kinds = if std::mem::take(&mut self.short) { 3 } else { self.kinds };
        match choose(kinds) {
            0 => self.mark("y", &c),
            1 => {
                if c.in_fun && flag() {
                    self.mark("return(m)", &c);
                    return c.dead.or(Some(Why::Return));
                }
                self.mark(STOPS[(self.text.len() / 3) % 4], &c);
                return c.dead.or(Some(Why::Stop));
            }
            2 => {
                assume(c.in_loop);
                if flag() {
                    self.mark("break", &c);
                    return c.dead.or(Some(Why::Break));
                }
                self.mark("next", &c);
                return c.dead.or(Some(Why::Next));
            }
            3 => {
                self.put("if ");
                let v = self.cond(&c);
                let no = |on: bool| Ctx { dead: c.dead.or(if v == Some(!on) { Some(Why::Dead) } else { None }), ..c };
                let other = self.left > 0 && flag();
                let a = self.body(no(true), other);
                let b = if other {
                    self.put(" else ");
                    self.body(no(false), false)
                } else {
                    no(false).dead
                };
                return match (c.dead, a, b) {
                    (Some(w), _, _) => Some(w),
                    (None, Some(_), Some(_)) => Some(Why::Other),
                    _ => None,
                };
            }
            4 => {
                let t = ["for (i in v) ", "while (w) ", "repeat "][choose(3)];
                self.mark(t, &c);
                self.body(Ctx { in_loop: true, ..c }, false);
            }
            // A function, whose statements may or may not be looked at together
            // with what is around it.
            _ => {
                self.nested = true;
                let t = ["g <- function() ", "h(\\(x) "][choose(2)];
                self.mark(t, &c);
                self.body(Ctx { in_loop: false, in_fun: true, ..c }, false);
                if t == "h(\\(x) " {
                    self.put(")");
                }
            }
        }
        c.dead
    }
}
fn judge(p: &Prog) {
    let c = config("unreachable_code");
    note(|| format!("{:?}", p.text));
    let Some(d) = lint(&p.text, "a.R", &c) else {
        return check(false, "code_is_read");
    };
    note(|| format!("{d:?} {:?}", p.marks));
    let span = |d: &Diagnostic| (d.range.start().into(), d.range.end().into());
    let spans: Vec<(usize, usize)> = d.iter().map(span).collect();
    for &(s, e, dead) in &p.marks {
        let over = spans.iter().any(|&(a, b)| a < e && s < b);
        let e = s + p.text[s..e].trim_end().len();
        let within = spans.iter().any(|&(a, b)| a <= s && e <= b);
        if dead.is_none() {
            check(!over, "what_can_run_is_not_reported");
        } else {
            reach("dead");
            check(within, "what_never_runs_is_reported");
        }
    }
    if !p.nested {
        for (i, a) in spans.iter().enumerate() {
            check(spans[..i].iter().all(|b| a.1 <= b.0 || b.1 <= a.0), "it_is_reported_once");
        }
    }
    // What the message blames.
    for x in &d {
        let (s, _) = span(x);
        check(x.fix.content.is_empty(), "nothing_to_fix");
        if p.nested {
            continue;
        }
        let first = p.marks.iter().filter(|m| m.0 >= s).min_by_key(|m| m.0);
        let Some(&(_, _, Some(why))) = first else {
            continue;
        };
        let says = match why {
            Why::Return => "after a return",
            Why::Stop => "after a `stop()`",
            Why::Break => "after a break",
            Why::Next => "after a next",
            Why::Dead => "in a branch that can never",
            Why::Other => "",
        };
        check(x.message.body.contains(says), "the_reason_is_right");
    }
    if d.is_empty() {
        reach("quiet");
    }
}
/// Some statements in a function or at the top level.
fn flow() {
    let (n, conds, kinds) = (param(0), param(1), param(2));
    let mut p = Prog { text: String::new(), marks: vec![], left: n, conds, kinds, nested: false, short: false };
    let in_fun = param(3) == 0;
    let c = Ctx { dead: None, in_loop: false, in_fun, depth: 0 };
    if in_fun {
        p.put("f <- function() {");
        p.list(c, "\n");
        p.put("\n}\n");
    } else {
        p.list(c, "\n");
        p.put("\n");
    }
    judge(&p);
}
/// Statements behind which the code goes on.
const LIVE: [&str; 30] = [
    "stop", "return", "f$stop(m)", "f@stop(m)", "stop$f(m)", "f$return(m)", "stop <- m", "return <- m", "function() stop(m)",
    "\\(x) return(x)", "g(stop)", "x[stop]", "tryCatch(stop(m), error = f)", "quote(stop(m))", "quote(break)", "c && stop(m)",
    "c || return(m)", "x %||% stop(m)", "switch(x, a = return(m))", "~stop(m)", "stops(m)", "my.stop(m)", "stop.default(m)",
    "x$break", "x$next(m)", "g(function() return(m))", "if (c) g(return) else stop(m)", "{}", "break_", "f$rlang$abort(m)",
];
/// Statements that only look like ones that end something.
fn goes_on() {
    let s: String = if flag() {
        LIVE[choose(LIVE.len())].to_string()
    } else {
        // One letter is another.
        let t = ["stop(m)", "return(m)", "abort(m)", "q(m)", "quit(m)", "break", "next", "cli_abort(m)"][choose(8)];
        let at = choose(t.find('(').unwrap_or(t.len()));
        let x = set(b"bstxrR.");
        let mut b = t.as_bytes().to_vec();
        assume(b[at] != x && !(at == 0 && x == b'.' && b.len() < 2));
        b[at] = x;
        String::from_utf8(b).unwrap()
    };
    assume(!(s == "q(m)" || s == "quit(m)"));
    let text = match choose(4) {
        0 => format!("f <- function() {{\n{s}\ny\n}}\n"),
        1 => format!("for (i in v) {{\n{s}\ny\n}}\n"),
        2 => format!("if (c) {{\n{s}\n}} else {{\n{s}\n}}\ny\n"),
        _ => format!("{s}\ny\n"),
    };
    note(|| text.clone());
    if let Some(d) = lint(&text, "a.R", &config("unreachable_code")) {
        reach("read");
        check(d.is_empty(), "what_can_run_is_not_reported");
    }
}
pub fn run(i: u32) {
    match i {
        60 => flow(),
        61 => goes_on(),
        _ => {}
    }
}
