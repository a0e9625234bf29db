//! Stand-in for air_r_parser: a hand-written R parser producing the same tree shape
//! (grammar and precedences of tree-sitter-r, trivia split as in biome).
use air_r_syntax::{RLanguage, RRoot, RSyntaxKind as K, RSyntaxNode};
use biome_rowan::{AstNode, TreeBuilder, TriviaPieceKind as T};

#[derive(Clone, Debug, Default)]
pub struct RParserOptions {}
#[derive(Clone, Debug)]
pub struct ParseError;
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("syntax error")
    }
}
impl std::error::Error for ParseError {}
#[derive(Clone, Debug)]
pub struct Parse {
    root: RSyntaxNode,
    errors: Vec<ParseError>,
}
impl Parse {
    pub fn syntax(&self) -> RSyntaxNode {
        self.root.clone()
    }
    pub fn tree(&self) -> RRoot {
        RRoot::cast(self.root.clone()).unwrap()
    }
    pub fn has_error(&self) -> bool {
        !self.errors.is_empty()
    }
    pub fn error(&self) -> Option<&ParseError> {
        self.errors.first()
    }
    pub fn into_errors(self) -> Vec<ParseError> {
        self.errors
    }
}

#[derive(Clone, Copy)]
struct Tok {
    kind: K,
    start: usize,
    end: usize,
    nl: bool,
    semi: bool,
}
enum C {
    Tok(K, usize, usize),
    Node(N),
    Empty,
}
struct N {
    kind: K,
    kids: Vec<C>,
}
fn node(kind: K, kids: Vec<C>) -> N {
    N { kind, kids }
}

fn ident_start(s: &[u8], i: usize) -> bool {
    matches!(s[i], b'a'..=b'z' | b'A'..=b'Z' | b'.' | 128..=255)
}
fn ident_part(c: u8) -> bool {
    matches!(c, b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'.' | b'_' | 128..=255)
}
fn keyword(w: &[u8]) -> K {
    match w {
        b"function" => K::FUNCTION_KW,
        b"for" => K::FOR_KW,
        b"in" => K::IN_KW,
        b"while" => K::WHILE_KW,
        b"repeat" => K::REPEAT_KW,
        b"if" => K::IF_KW,
        b"else" => K::ELSE_KW,
        b"return" => K::RETURN_KW,
        b"next" => K::NEXT_KW,
        b"break" => K::BREAK_KW,
        b"TRUE" => K::TRUE_KW,
        b"FALSE" => K::FALSE_KW,
        b"NULL" => K::NULL_KW,
        b"Inf" => K::INF_KW,
        b"NaN" => K::NAN_KW,
        b"NA" => K::NA_LOGICAL_KW,
        b"NA_integer_" => K::NA_INTEGER_KW,
        b"NA_real_" => K::NA_DOUBLE_KW,
        b"NA_complex_" => K::NA_COMPLEX_KW,
        b"NA_character_" => K::NA_CHARACTER_KW,
        b"..." => K::DOTS,
        _ => {
            if w.len() > 2 && w[0] == b'.' && w[1] == b'.' && w[2..].iter().all(|c| c.is_ascii_digit()) {
                K::DOTDOTI
            } else {
                K::IDENT
            }
        }
    }
}
/// Length of a string starting at i (quote or raw prefix), None if unterminated.
fn string(s: &[u8], i: usize) -> Option<usize> {
    let mut j = i;
    if s[i] == b'r' || s[i] == b'R' {
        let q = s[i + 1];
        j = i + 2;
        let mut dashes = 0;
        while j < s.len() && s[j] == b'-' {
            dashes += 1;
            j += 1;
        }
        let close = match s.get(j)? {
            b'(' => b')',
            b'[' => b']',
            b'{' => b'}',
            _ => return None,
        };
        j += 1;
        while j < s.len() {
            if s[j] == close {
                let mut d = 0;
                while d < dashes && s.get(j + 1 + d) == Some(&b'-') {
                    d += 1;
                }
                if d == dashes && s.get(j + 1 + d) == Some(&q) {
                    return Some(j + 2 + d - i);
                }
            }
            j += 1;
        }
        return None;
    }
    let q = s[j];
    j += 1;
    while j < s.len() {
        if s[j] == q {
            return Some(j + 1 - i);
        }
        if s[j] == b'\\' {
            j += 1;
        }
        j += 1;
    }
    None
}
fn number(s: &[u8], i: usize) -> (K, usize) {
    let mut j = i;
    let at = |j: usize| s.get(j).copied().unwrap_or(0);
    if at(j) == b'0' && (at(j + 1) == b'x' || at(j + 1) == b'X') {
        j += 2;
        while at(j).is_ascii_hexdigit() || at(j) == b'.' {
            j += 1;
        }
        if at(j) == b'p' || at(j) == b'P' {
            j += 1;
            if at(j) == b'+' || at(j) == b'-' {
                j += 1;
            }
            while at(j).is_ascii_digit() {
                j += 1;
            }
        }
    } else {
        while at(j).is_ascii_digit() {
            j += 1;
        }
        if at(j) == b'.' {
            j += 1;
            while at(j).is_ascii_digit() {
                j += 1;
            }
        }
        if at(j) == b'e' || at(j) == b'E' {
            let mut k = j + 1;
            if at(k) == b'+' || at(k) == b'-' {
                k += 1;
            }
            if at(k).is_ascii_digit() {
                while at(k).is_ascii_digit() {
                    k += 1;
                }
                j = k;
            }
        }
    }
    match at(j) {
        b'L' => (K::R_INTEGER_LITERAL, j + 1 - i),
        b'i' => (K::R_COMPLEX_LITERAL, j + 1 - i),
        _ => (K::R_DOUBLE_LITERAL, j - i),
    }
}
fn lex(s: &[u8]) -> Option<Vec<Tok>> {
    let mut out = Vec::new();
    let mut i = 0;
    let (mut nl, mut semi) = (false, false);
    let at = |j: usize| s.get(j).copied().unwrap_or(0);
    if s.starts_with(b"\xef\xbb\xbf") {
        out.push(Tok { kind: K::UNICODE_BOM, start: 0, end: 3, nl: false, semi: false });
        i = 3;
    }
    while i < s.len() {
        let c = s[i];
        let (kind, n) = match c {
            b'\n' => {
                nl = true;
                i += 1;
                continue;
            }
            b' ' | b'\t' | b'\r' | 12 => {
                i += 1;
                continue;
            }
            b';' => {
                semi = true;
                i += 1;
                continue;
            }
            b'#' => {
                while i < s.len() && s[i] != b'\n' {
                    i += 1;
                }
                continue;
            }
            b'(' => (K::L_PAREN, 1),
            b')' => (K::R_PAREN, 1),
            b'{' => (K::L_CURLY, 1),
            b'}' => (K::R_CURLY, 1),
            b'[' => if at(i + 1) == b'[' { (K::L_BRACK2, 2) } else { (K::L_BRACK, 1) },
            b']' => (K::R_BRACK, 1),
            b',' => (K::COMMA, 1),
            b'?' => (K::WAT, 1),
            b'~' => (K::TILDE, 1),
            b'+' => (K::PLUS, 1),
            b'/' => (K::DIVIDE, 1),
            b'^' => (K::EXPONENTIATE, 1),
            b'$' => (K::DOLLAR, 1),
            b'@' => (K::AT, 1),
            b'\\' => (K::BACKSLASH, 1),
            b'*' => if at(i + 1) == b'*' { (K::EXPONENTIATE2, 2) } else { (K::MULTIPLY, 1) },
            b'<' => match (at(i + 1), at(i + 2)) {
                (b'<', b'-') => (K::SUPER_ASSIGN, 3),
                (b'-', _) => (K::ASSIGN, 2),
                (b'=', _) => (K::LESS_THAN_OR_EQUAL_TO, 2),
                _ => (K::LESS_THAN, 1),
            },
            b'-' => match (at(i + 1), at(i + 2)) {
                (b'>', b'>') => (K::SUPER_ASSIGN_RIGHT, 3),
                (b'>', _) => (K::ASSIGN_RIGHT, 2),
                _ => (K::MINUS, 1),
            },
            b'=' => if at(i + 1) == b'=' { (K::EQUAL2, 2) } else { (K::EQUAL, 1) },
            b'!' => if at(i + 1) == b'=' { (K::NOT_EQUAL, 2) } else { (K::BANG, 1) },
            b'>' => if at(i + 1) == b'=' { (K::GREATER_THAN_OR_EQUAL_TO, 2) } else { (K::GREATER_THAN, 1) },
            b'&' => if at(i + 1) == b'&' { (K::AND2, 2) } else { (K::AND, 1) },
            b'|' => match at(i + 1) {
                b'|' => (K::OR2, 2),
                b'>' => (K::PIPE, 2),
                _ => (K::OR, 1),
            },
            b':' => match (at(i + 1), at(i + 2)) {
                (b':', b':') => (K::COLON3, 3),
                (b':', _) => (K::COLON2, 2),
                (b'=', _) => (K::WALRUS, 2),
                _ => (K::COLON, 1),
            },
            b'%' => {
                let mut j = i + 1;
                while j < s.len() && s[j] != b'%' && s[j] != b'\n' {
                    j += 1;
                }
                if at(j) != b'%' {
                    return None;
                }
                (K::SPECIAL, j + 1 - i)
            }
            b'"' | b'\'' => (K::R_STRING_LITERAL, string(s, i)?),
            b'`' => (K::IDENT, string(s, i)?),
            b'r' | b'R' if at(i + 1) == b'"' || at(i + 1) == b'\'' => (K::R_STRING_LITERAL, string(s, i)?),
            b'0'..=b'9' => number(s, i),
            b'.' if at(i + 1).is_ascii_digit() => {
                let (k, n) = number(s, i);
                // tree-sitter-r issue 190: `.8i` is not a complex literal.
                if k == K::R_COMPLEX_LITERAL { (K::IDENT, n) } else { (k, n) }
            }
            b'_' if !ident_part(at(i + 1)) => (K::IDENT, 1),
            _ if ident_start(s, i) => {
                let mut j = i + 1;
                while j < s.len() && ident_part(s[j]) {
                    j += 1;
                }
                (keyword(&s[i..j]), j - i)
            }
            _ => return None,
        };
        out.push(Tok { kind, start: i, end: i + n, nl, semi });
        i += n;
        nl = false;
        semi = false;
    }
    out.push(Tok { kind: K::EOF, start: s.len(), end: s.len(), nl, semi });
    Some(out)
}

struct P {
    t: Vec<Tok>,
    i: usize,
    /// Innermost enclosing bracket: b'(' (newlines are blanks), b'{' or 0 (top level).
    ctx: u8,
}
type R<X> = Result<X, ()>;
const HELP: u8 = 2;
const UNARY_NOT: u8 = 18;
const TILDE: u8 = 12;
const UNARY: u8 = 30;
/// (left, right) binding power of a binary operator.
fn power(k: K) -> Option<(u8, u8)> {
    Some(match k {
        K::WAT => (HELP, 3),
        K::EQUAL => (5, 4),
        K::ASSIGN | K::SUPER_ASSIGN | K::WALRUS => (9, 8),
        K::ASSIGN_RIGHT | K::SUPER_ASSIGN_RIGHT => (10, 11),
        K::TILDE => (TILDE, 13),
        K::OR | K::OR2 => (14, 15),
        K::AND | K::AND2 => (16, 17),
        K::GREATER_THAN | K::GREATER_THAN_OR_EQUAL_TO | K::LESS_THAN | K::LESS_THAN_OR_EQUAL_TO | K::EQUAL2 | K::NOT_EQUAL => (20, 21),
        K::PLUS | K::MINUS => (22, 23),
        K::MULTIPLY | K::DIVIDE => (24, 25),
        K::SPECIAL | K::PIPE => (26, 27),
        K::COLON => (28, 29),
        K::EXPONENTIATE | K::EXPONENTIATE2 => (33, 32),
        _ => return None,
    })
}
impl P {
    fn kind(&self) -> K {
        self.t[self.i].kind
    }
    fn bump(&mut self) -> C {
        let c = C::Tok(self.t[self.i].kind, self.i, self.i);
        self.i += 1;
        c
    }
    fn expect(&mut self, k: K) -> R<C> {
        if self.kind() == k { Ok(self.bump()) } else { Err(()) }
    }
    /// Does the current token continue the expression before it?
    fn continues(&self) -> bool {
        let t = &self.t[self.i];
        if self.ctx == b'(' { !t.semi } else { !t.nl && !t.semi }
    }
    fn within<X>(&mut self, ctx: u8, f: impl FnOnce(&mut Self) -> R<X>) -> R<X> {
        let old = std::mem::replace(&mut self.ctx, ctx);
        let r = f(self);
        self.ctx = old;
        r
    }
    fn expressions(&mut self, end: K) -> R<N> {
        let mut v = Vec::new();
        while self.kind() != end {
            if !v.is_empty() && !self.t[self.i].nl && !self.t[self.i].semi {
                return Err(());
            }
            v.push(C::Node(self.expr(0)?));
        }
        Ok(node(K::R_EXPRESSION_LIST, v))
    }
    fn leaf(&mut self, k: K) -> N {
        let t = self.bump();
        node(k, vec![t])
    }
    fn expr(&mut self, min: u8) -> R<N> {
        let mut l = self.prefix()?;
        loop {
            if !self.continues() {
                break;
            }
            match self.kind() {
                K::L_PAREN => {
                    let a = self.args(K::R_CALL_ARGUMENTS)?;
                    l = node(K::R_CALL, vec![C::Node(l), C::Node(a)]);
                    continue;
                }
                K::L_BRACK => {
                    let a = self.args(K::R_SUBSET_ARGUMENTS)?;
                    l = node(K::R_SUBSET, vec![C::Node(l), C::Node(a)]);
                    continue;
                }
                K::L_BRACK2 => {
                    let a = self.args(K::R_SUBSET2_ARGUMENTS)?;
                    l = node(K::R_SUBSET2, vec![C::Node(l), C::Node(a)]);
                    continue;
                }
                K::DOLLAR | K::AT => {
                    let op = self.bump();
                    let r = self.selector()?;
                    l = node(K::R_EXTRACT_EXPRESSION, vec![C::Node(l), op, C::Node(r)]);
                    continue;
                }
                K::COLON2 | K::COLON3 => {
                    if !matches!(l.kind, K::R_IDENTIFIER | K::R_STRING_VALUE) {
                        return Err(());
                    }
                    let op = self.bump();
                    let r = self.selector()?;
                    l = node(K::R_NAMESPACE_EXPRESSION, vec![C::Node(l), op, C::Node(r)]);
                    continue;
                }
                _ => {}
            }
            let Some((lp, rp)) = power(self.kind()) else { break };
            if lp < min {
                break;
            }
            let op = self.bump();
            let r = self.expr(rp)?;
            l = node(K::R_BINARY_EXPRESSION, vec![C::Node(l), op, C::Node(r)]);
        }
        Ok(l)
    }
    fn selector(&mut self) -> R<N> {
        Ok(match self.kind() {
            K::IDENT => self.leaf(K::R_IDENTIFIER),
            K::R_STRING_LITERAL => self.leaf(K::R_STRING_VALUE),
            K::DOTS => self.leaf(K::R_DOTS),
            K::DOTDOTI => self.leaf(K::R_DOT_DOT_I),
            K::RETURN_KW => self.leaf(K::R_RETURN_EXPRESSION),
            K::L_PAREN => self.prefix()?,
            _ => return Err(()),
        })
    }
    /// An operator's operand: postfix operators bind tighter than unary ones.
    fn unary(&mut self, power: u8) -> R<N> {
        let op = self.bump();
        let a = self.expr(power)?;
        Ok(node(K::R_UNARY_EXPRESSION, vec![op, C::Node(a)]))
    }
    fn body(&mut self) -> R<C> {
        Ok(C::Node(self.expr(HELP + 1)?))
    }
    fn paren(&mut self) -> R<(C, C, C)> {
        let (l, e) = self.within(b'(', |p| Ok((p.expect(K::L_PAREN)?, p.expr(0)?)))?;
        Ok((l, C::Node(e), self.expect(K::R_PAREN)?))
    }
    fn prefix(&mut self) -> R<N> {
        Ok(match self.kind() {
            K::PLUS | K::MINUS => self.unary(UNARY)?,
            K::BANG => self.unary(UNARY_NOT)?,
            K::TILDE => self.unary(TILDE + 1)?,
            K::WAT => self.unary(HELP + 1)?,
            K::IDENT => self.leaf(K::R_IDENTIFIER),
            K::R_STRING_LITERAL => self.leaf(K::R_STRING_VALUE),
            K::R_INTEGER_LITERAL => self.leaf(K::R_INTEGER_VALUE),
            K::R_DOUBLE_LITERAL => self.leaf(K::R_DOUBLE_VALUE),
            K::R_COMPLEX_LITERAL => self.leaf(K::R_COMPLEX_VALUE),
            K::TRUE_KW => self.leaf(K::R_TRUE_EXPRESSION),
            K::FALSE_KW => self.leaf(K::R_FALSE_EXPRESSION),
            K::NULL_KW => self.leaf(K::R_NULL_EXPRESSION),
            K::INF_KW => self.leaf(K::R_INF_EXPRESSION),
            K::NAN_KW => self.leaf(K::R_NAN_EXPRESSION),
            K::NA_LOGICAL_KW | K::NA_INTEGER_KW | K::NA_DOUBLE_KW | K::NA_COMPLEX_KW | K::NA_CHARACTER_KW => self.leaf(K::R_NA_EXPRESSION),
            K::DOTS => self.leaf(K::R_DOTS),
            K::DOTDOTI => self.leaf(K::R_DOT_DOT_I),
            K::RETURN_KW => self.leaf(K::R_RETURN_EXPRESSION),
            K::NEXT_KW => self.leaf(K::R_NEXT_EXPRESSION),
            K::BREAK_KW => self.leaf(K::R_BREAK_EXPRESSION),
            K::L_CURLY => {
                let (l, e) = self.within(b'{', |p| Ok((p.bump(), p.expressions(K::R_CURLY)?)))?;
                let r = self.expect(K::R_CURLY)?;
                node(K::R_BRACED_EXPRESSIONS, vec![l, C::Node(e), r])
            }
            K::L_PAREN => {
                let (l, e, r) = self.paren()?;
                node(K::R_PARENTHESIZED_EXPRESSION, vec![l, e, r])
            }
            K::FUNCTION_KW | K::BACKSLASH => {
                let f = self.bump();
                let params = self.params()?;
                let body = self.body()?;
                node(K::R_FUNCTION_DEFINITION, vec![f, C::Node(params), body])
            }
            K::REPEAT_KW => {
                let t = self.bump();
                let b = self.body()?;
                node(K::R_REPEAT_STATEMENT, vec![t, b])
            }
            K::WHILE_KW => {
                let t = self.bump();
                let (l, c, r) = self.paren()?;
                let b = self.body()?;
                node(K::R_WHILE_STATEMENT, vec![t, l, c, r, b])
            }
            K::FOR_KW => {
                let t = self.bump();
                let (l, v, i, s) = self.within(b'(', |p| {
                    let l = p.expect(K::L_PAREN)?;
                    if p.kind() != K::IDENT {
                        return Err(());
                    }
                    let v = p.leaf(K::R_IDENTIFIER);
                    Ok((l, v, p.expect(K::IN_KW)?, p.expr(0)?))
                })?;
                let r = self.expect(K::R_PAREN)?;
                let b = self.body()?;
                node(K::R_FOR_STATEMENT, vec![t, l, C::Node(v), i, C::Node(s), r, b])
            }
            K::IF_KW => {
                let t = self.bump();
                let (l, c, r) = self.paren()?;
                let b = self.body()?;
                let e = &self.t[self.i];
                let with_else = e.kind == K::ELSE_KW && !e.semi && (self.ctx != 0 || !e.nl);
                let e = if with_else {
                    let t = self.bump();
                    let a = self.body()?;
                    C::Node(node(K::R_ELSE_CLAUSE, vec![t, a]))
                } else {
                    C::Empty
                };
                node(K::R_IF_STATEMENT, vec![t, l, c, r, b, e])
            }
            _ => return Err(()),
        })
    }
    fn params(&mut self) -> R<N> {
        let (l, v) = self.within(b'(', |p| {
            let l = p.expect(K::L_PAREN)?;
            let mut v = Vec::new();
            while p.kind() != K::R_PAREN {
                if !v.is_empty() {
                    v.push(p.expect(K::COMMA)?);
                }
                let name = match p.kind() {
                    K::IDENT => p.leaf(K::R_IDENTIFIER),
                    K::DOTS => p.leaf(K::R_DOTS),
                    K::DOTDOTI => p.leaf(K::R_DOT_DOT_I),
                    _ => return Err(()),
                };
                let d = if p.kind() == K::EQUAL {
                    let e = p.bump();
                    let x = p.expr(6)?;
                    C::Node(node(K::R_PARAMETER_DEFAULT, vec![e, C::Node(x)]))
                } else {
                    C::Empty
                };
                v.push(C::Node(node(K::R_PARAMETER, vec![C::Node(name), d])));
            }
            Ok((l, v))
        })?;
        let r = self.expect(K::R_PAREN)?;
        Ok(node(K::R_PARAMETERS, vec![l, C::Node(node(K::R_PARAMETER_LIST, v)), r]))
    }
    fn args(&mut self, kind: K) -> R<N> {
        let end = if kind == K::R_CALL_ARGUMENTS { K::R_PAREN } else { K::R_BRACK };
        let (l, v) = self.within(b'(', |p| {
            let l = p.bump();
            let mut v = Vec::new();
            if p.kind() != end {
                loop {
                    v.push(C::Node(p.arg(end)?));
                    if p.kind() != K::COMMA {
                        break;
                    }
                    v.push(p.bump());
                }
            }
            Ok((l, v))
        })?;
        let r = if kind == K::R_SUBSET2_ARGUMENTS {
            self.expect(K::R_BRACK)?;
            if self.t[self.i].start != self.t[self.i - 1].end {
                return Err(());
            }
            self.expect(K::R_BRACK)?;
            C::Tok(K::R_BRACK2, self.i - 2, self.i - 1)
        } else {
            self.expect(end)?
        };
        Ok(node(kind, vec![l, C::Node(node(K::R_ARGUMENT_LIST, v)), r]))
    }
    fn arg(&mut self, end: K) -> R<N> {
        let k = self.kind();
        let name = match k {
            K::IDENT => Some(K::R_IDENTIFIER),
            K::R_STRING_LITERAL => Some(K::R_STRING_VALUE),
            K::DOTS => Some(K::R_DOTS),
            K::DOTDOTI => Some(K::R_DOT_DOT_I),
            K::NULL_KW => Some(K::R_NULL_EXPRESSION),
            _ => None,
        };
        let mut clause = C::Empty;
        if let Some(n) = name {
            if self.t[self.i + 1].kind == K::EQUAL {
                let n = self.leaf(n);
                let eq = self.bump();
                clause = C::Node(node(K::R_ARGUMENT_NAME_CLAUSE, vec![C::Node(n), eq]));
            }
        }
        let value = if self.kind() == K::COMMA || self.kind() == end { C::Empty } else { C::Node(self.expr(6)?) };
        Ok(node(K::R_ARGUMENT, vec![clause, value]))
    }
}

type Piece = (T, u32, u32);
fn pieces(s: &[u8], from: usize, to: usize) -> Vec<Piece> {
    let mut v: Vec<Piece> = Vec::new();
    let mut i = from;
    while i < to {
        let b = i;
        let k = match s[i] {
            b'\n' => {
                i += 1;
                T::Newline
            }
            b'\r' if i + 1 < to && s[i + 1] == b'\n' => {
                i += 2;
                T::Newline
            }
            b'#' => {
                while i < to && s[i] != b'\n' && !(s[i] == b'\r' && i + 1 < to && s[i + 1] == b'\n') {
                    i += 1;
                }
                T::SingleLineComment
            }
            _ => {
                i += 1;
                while i < to && s[i] != b'\n' && s[i] != b'#' && !(s[i] == b'\r' && i + 1 < to && s[i + 1] == b'\n') {
                    i += 1;
                }
                T::Whitespace
            }
        };
        v.push((k, b as u32, i as u32));
    }
    v
}
struct Emit<'a> {
    b: TreeBuilder,
    t: &'a [Tok],
    s: &'a [u8],
    /// Trivia before the next token that is not trailing the last one.
    lead: Vec<Piece>,
}
impl Emit<'_> {
    fn node(&mut self, n: &N) {
        self.b.start_node(n.kind as u16);
        for c in &n.kids {
            match c {
                C::Tok(k, a, b) => self.tok(*k, *a, *b),
                C::Node(n) => self.node(n),
                C::Empty => self.b.empty(),
            }
        }
        self.b.finish_node();
    }
    fn tok(&mut self, k: K, a: usize, b: usize) {
        let (start, end) = (self.t[a].start, self.t[b].end);
        let mut trail = match self.t.get(b + 1) {
            Some(n) => pieces(self.s, end, n.start),
            None => Vec::new(),
        };
        let cut = trail.iter().position(|p| p.0 == T::Newline).unwrap_or(trail.len());
        let next = trail.split_off(cut);
        let lead = std::mem::replace(&mut self.lead, next);
        self.b.token(k as u16, &lead, start as u32, end as u32, &trail);
    }
}
pub fn parse(text: &str, _: RParserOptions) -> Parse {
    let s = text.as_bytes();
    let mut errors = Vec::new();
    let parsed = lex(s).and_then(|t| {
        let mut p = P { t, i: 0, ctx: 0 };
        let bom = if p.kind() == K::UNICODE_BOM { p.bump() } else { C::Empty };
        let e = p.expressions(K::EOF).ok()?;
        let eof = p.bump();
        Some((p.t, node(K::R_ROOT, vec![bom, C::Node(e), eof])))
    });
    let (t, root) = parsed.unwrap_or_else(|| {
        errors.push(ParseError);
        let t = vec![Tok { kind: K::EOF, start: s.len(), end: s.len(), nl: false, semi: false }];
        (t, node(K::R_ROOT, vec![C::Empty, C::Node(node(K::R_EXPRESSION_LIST, vec![])), C::Tok(K::EOF, 0, 0)]))
    });
    let mut e = Emit { b: TreeBuilder::new(text), t: &t, s, lead: pieces(s, 0, t[0].start) };
    e.node(&root);
    Parse { root: e.b.finish::<RLanguage>(), errors }
}
