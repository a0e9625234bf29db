//! Decoded LLVM IR and the textual parser.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Fp(u32),
    Vec(u64, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Fp(w) => *w,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.clamp(1, 16)
            }
            Ty::Ptr => 8,
            Ty::Fp(w) => (*w as u64) / 8,
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// bytes written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (*n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => {
                let a = self.align();
                (self.store_size() + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Fp(w) => *w as u64 / 8,
            Ty::Vec(n, t) => ((*n * t.bits() as u64 + 7) / 8).next_power_of_two(),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field of {self:?}"),
        }
    }
}

/// Constants before global addresses are known.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Global(String),
    Zero,
    Undef,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Const)>),
    Splat(Box<(Ty, Const)>),
    Gep(Ty, Box<Const>, Vec<(Ty, Const)>),
    Bin(String, u32, Box<Const>, Box<Const>),
    Cast(String, Ty, Box<Const>, Ty),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u32),
    K(Const, Ty),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Name(String),
    Reg(Opd),
    Asm(String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastK { Zext, Sext, Trunc, Same, Fp(&'static str) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: crate::expr::Op, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    FBin { op: &'static str, w: u32, d: u32, a: Opd, b: Opd },
    Icmp { op: crate::expr::Op, neg: bool, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    Fcmp { pred: String, w: u32, d: u32, a: Opd, b: Opd },
    Load { d: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, u32, u64)>, vec: bool },
    Alloca { d: u32, size: u64, n: Opd },
    Cast { kind: CastK, from: Ty, to: Ty, d: u32, a: Opd },
    Select { d: u32, cty: Ty, ty: Ty, c: Opd, a: Opd, b: Opd },
    Call { d: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Opd)>, normal: Option<u32> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Extract { d: u32, a: Opd, path: Vec<u32> },
    Insert { d: u32, ty: Ty, a: Opd, v: Opd, path: Vec<u32> },
    ExtractEl { d: u32, a: Opd, i: Opd },
    InsertEl { d: u32, ty: Ty, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, ty: Ty, a: Opd, b: Opd, mask: Vec<i64> },
    Rmw { d: u32, op: String, ty: Ty, p: Opd, v: Opd },
    CmpXchg { d: u32, ty: Ty, p: Opd, c: Opd, n: Opd },
    Mov { d: u32, a: Opd },
    Nop,
    Unsupported(String),
}

pub struct Phi {
    pub d: u32,
    pub inc: Vec<(Opd, u32)>,
}
#[derive(Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}
pub struct Func {
    pub id: u32,
    pub consts: Vec<crate::mem::Val>,
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub byval: Vec<Option<u64>>,
    pub blocks: Vec<Block>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Num(String),
    Str(Vec<u8>),
    Meta, // !foo or !12 or !{...}
    Attr, // #12
    P(char),
    Dots,
    LabelDef(String),
}

fn is_idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
fn unesc(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && i + 2 <= s.len() - 1 {
            if s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn lex(s: &[u8]) -> Vec<Tok> {
    let mut v = Vec::new();
    let mut i = 0;
    let n = s.len();
    let mut bol = true;
    while i < n {
        let c = s[i];
        match c {
            b'\n' => {
                bol = true;
                i += 1;
            }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => {
                while i < n && s[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                bol = false;
                let name;
                if i + 1 < n && s[i + 1] == b'"' {
                    let mut j = i + 2;
                    while s[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&s[i + 2..j]).into_owned();
                    i = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < n && is_idc(s[j]) {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&s[i + 1..j]).into_owned();
                    i = j;
                }
                v.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                bol = false;
                i += 1;
                if i < n && s[i] == b'{' {
                    while s[i] != b'}' {
                        i += 1;
                    }
                    i += 1;
                } else if i < n && s[i] == b'"' {
                    i += 1;
                    while s[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                } else {
                    while i < n && is_idc(s[i]) {
                        i += 1;
                    }
                    if i < n && s[i] == b'(' {
                        let mut d = 0;
                        loop {
                            if s[i] == b'(' { d += 1 }
                            if s[i] == b')' { d -= 1; }
                            i += 1;
                            if d == 0 { break; }
                        }
                    }
                }
                v.push(Tok::Meta);
            }
            b'#' => {
                bol = false;
                i += 1;
                while i < n && s[i].is_ascii_digit() {
                    i += 1;
                }
                v.push(Tok::Attr);
            }
            b'"' => {
                let mut j = i + 1;
                while s[j] != b'"' {
                    j += 1;
                }
                let body = unesc(&s[i + 1..j]);
                i = j + 1;
                if bol && i < n && s[i] == b':' {
                    i += 1;
                    v.push(Tok::LabelDef(String::from_utf8_lossy(&body).into_owned()));
                } else {
                    v.push(Tok::Str(body));
                }
                bol = false;
            }
            b'c' if i + 1 < n && s[i + 1] == b'"' => {
                bol = false;
                let mut j = i + 2;
                while s[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::Str(unesc(&s[i + 2..j])));
                i = j + 1;
            }
            b'.' if i + 2 < n && s[i + 1] == b'.' && s[i + 2] == b'.' => {
                v.push(Tok::Dots);
                i += 3;
            }
            _ if is_idc(c) || (c == b'+' && i + 1 < n && s[i + 1].is_ascii_alphabetic()) => {
                let mut j = i + 1;
                while j < n && is_idc(s[j]) {
                    j += 1;
                }
                // 1.0e+10
                if j + 1 < n && s[j] == b'+' && s[j - 1] == b'e' && (c.is_ascii_digit() || c == b'-') && s[j + 1].is_ascii_digit() {
                    j += 1;
                    while j < n && is_idc(s[j]) {
                        j += 1;
                    }
                }
                let w = String::from_utf8_lossy(&s[i..j]).into_owned();
                if bol && j < n && s[j] == b':' {
                    v.push(Tok::LabelDef(w));
                    i = j + 1;
                } else {
                    let b0 = w.as_bytes()[0];
                    if b0.is_ascii_digit() || (b0 == b'-' && w.len() > 1 && w.as_bytes()[1].is_ascii_digit()) {
                        v.push(Tok::Num(w));
                    } else {
                        v.push(Tok::Word(w));
                    }
                    i = j;
                }
                bol = false;
            }
            _ => {
                bol = false;
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

pub struct P<'a> {
    pub t: &'a [Tok],
    pub i: usize,
    pub named: &'a HashMap<String, Ty>,
}

impl<'a> P<'a> {
    pub fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    pub fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    pub fn isp(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    pub fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == w)
    }
    pub fn eat(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: char) {
        if !self.eat(c) {
            let lo = self.i.saturating_sub(12);
            let hi = (self.i + 6).min(self.t.len());
            panic!("expected {c} at {:?}", &self.t[lo..hi]);
        }
    }
    pub fn num(&mut self) -> i128 {
        match self.next() {
            Tok::Num(s) => s.parse().unwrap_or_else(|_| panic!("num {s}")),
            t => panic!("number expected, got {t:?}"),
        }
    }
    fn skip_paren(&mut self) {
        self.expect('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
    }
    pub fn is_ty(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                w == "void" || w == "ptr" || w == "double" || w == "float" || w == "half" || w == "label" || w == "metadata" || w == "token" || w == "x86_fp80" || w == "fp128"
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()))
            }
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.named.contains_key(n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.isw("addrspace") {
                        self.i += 1;
                        self.skip_paren();
                    }
                    Ty::Ptr
                }
                "double" => Ty::Fp(64),
                "float" => Ty::Fp(32),
                "half" => Ty::Fp(16),
                "fp128" | "x86_fp80" => Ty::Fp(128),
                "label" | "metadata" | "token" => Ty::Other,
                _ => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
            },
            Tok::P('[') => {
                let n = self.num() as u64;
                assert!(self.eatw("x"));
                let e = self.ty();
                self.expect(']');
                Ty::Arr(n, Rc::new(e))
            }
            Tok::P('{') => {
                let f = self.tys('}');
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let f = self.tys('}');
                    self.expect('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num() as u64;
                    assert!(self.eatw("x"));
                    let e = self.ty();
                    self.expect('>');
                    Ty::Vec(n, Rc::new(e))
                }
            }
            Tok::Local(n) => self.named.get(&n).cloned().unwrap_or_else(|| panic!("named type {n}")),
            t => panic!("type expected, got {t:?}"),
        };
        t
    }
    fn tys(&mut self, end: char) -> Vec<Ty> {
        let mut f = Vec::new();
        if self.eat(end) {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eat(end) {
                return f;
            }
            self.expect(',');
        }
    }
    /// Skip parameter/return attributes until a value or type starts.
    pub fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    let w = w.clone();
                    if is_const_word(&w) || self.is_ty() {
                        return;
                    }
                    self.i += 1;
                    if w == "align" && matches!(self.peek(), Some(Tok::Num(_))) {
                        self.i += 1;
                    } else if self.isp('(') {
                        self.skip_paren();
                    }
                }
                Some(Tok::Str(_)) => {
                    // "string attr" or "k"="v"
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                Some(Tok::Attr) => self.i += 1,
                _ => return,
            }
        }
    }
    pub fn constant(&mut self, ty: &Ty) -> Const {
        match self.next() {
            Tok::Num(s) => {
                if let Ty::Fp(_) = ty {
                    return fp_const(&s, ty);
                }
                if let Some(r) = s.strip_prefix('-') {
                    let v: u128 = r.parse().unwrap();
                    Const::Int((v.wrapping_neg()) & crate::expr::wmask(ty.bits()))
                } else {
                    Const::Int(s.parse::<u128>().unwrap_or_else(|_| panic!("int {s}")))
                }
            }
            Tok::Global(g) => Const::Global(g),
            Tok::Str(b) => Const::Bytes(b),
            Tok::P('{') => Const::Agg(self.agg('}')),
            Tok::P('[') => Const::Agg(self.agg(']')),
            Tok::P('<') => {
                if self.eat('{') {
                    let a = self.agg('}');
                    self.expect('>');
                    Const::Agg(a)
                } else {
                    Const::Agg(self.agg('>'))
                }
            }
            Tok::Word(w) => match w.as_str() {
                "null" | "zeroinitializer" | "none" => Const::Zero,
                "undef" | "poison" => Const::Undef,
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "splat" => {
                    self.expect('(');
                    let t = self.ty();
                    let c = self.constant(&t);
                    self.expect(')');
                    Const::Splat(Box::new((t, c)))
                }
                "getelementptr" => {
                    while !self.isp('(') {
                        self.i += 1;
                        if self.isp('(') && matches!(&self.t[self.i - 1], Tok::Word(w) if w == "inrange") {
                            self.skip_paren();
                        }
                    }
                    self.expect('(');
                    let t = self.ty();
                    self.expect(',');
                    let bt = self.ty();
                    let b = self.constant(&bt);
                    let mut idx = Vec::new();
                    while self.eat(',') {
                        let it = self.ty();
                        let c = self.constant(&it);
                        idx.push((it, c));
                    }
                    self.expect(')');
                    Const::Gep(t, Box::new(b), idx)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => {
                    self.expect('(');
                    let t = self.ty();
                    let c = self.constant(&t);
                    assert!(self.eatw("to"));
                    let t2 = self.ty();
                    self.expect(')');
                    Const::Cast(w, t, Box::new(c), t2)
                }
                "add" | "sub" | "xor" => {
                    while !self.isp('(') {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t = self.ty();
                    let a = self.constant(&t);
                    self.expect(',');
                    let t2 = self.ty();
                    let b = self.constant(&t2);
                    self.expect(')');
                    Const::Bin(w, t.bits(), Box::new(a), Box::new(b))
                }
                _ => {
                    if is_fp_word(&w) {
                        return fp_const(&w, ty);
                    }
                    panic!("constant {w}")
                }
            },
            t => panic!("constant expected, got {t:?}"),
        }
    }
    fn agg(&mut self, end: char) -> Vec<(Ty, Const)> {
        let mut v = Vec::new();
        if self.eat(end) {
            return v;
        }
        loop {
            let t = self.ty();
            let c = self.constant(&t);
            v.push((t, c));
            if self.eat(end) {
                return v;
            }
            self.expect(',');
        }
    }
}

fn fp_const(s: &str, ty: &Ty) -> Const {
    if let Some(h) = s.strip_prefix("0x") {
        let v = u64::from_str_radix(h.trim_start_matches(|c: char| !c.is_ascii_hexdigit()), 16).unwrap_or(0);
        if *ty == Ty::Fp(32) {
            return Const::Int((f64::from_bits(v) as f32).to_bits() as u128);
        }
        return Const::Int(v as u128);
    }
    if let Some(h) = s.strip_prefix("f0x") {
        // the bits of the type itself
        return Const::Int(u128::from_str_radix(h, 16).unwrap());
    }
    let v: f64 = match s {
        "+inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "+qnan" | "+nan" | "+snan" => f64::from_bits(0x7ff8_0000_0000_0000),
        "-qnan" | "-nan" | "-snan" => f64::from_bits(0xfff8_0000_0000_0000),
        _ => s.parse().unwrap_or_else(|_| panic!("float constant {s}")),
    };
    if *ty == Ty::Fp(32) {
        Const::Int((v as f32).to_bits() as u128)
    } else {
        Const::Int(v.to_bits() as u128)
    }
}

fn is_const_word(w: &str) -> bool {
    matches!(
        w,
        "null" | "zeroinitializer" | "none" | "undef" | "poison" | "true" | "false" | "splat" | "getelementptr"
            | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "asm" | "ptrtoaddr" | "addrspacecast"
    ) || is_fp_word(w)
}

fn is_fp_word(w: &str) -> bool {
    let t = w.trim_start_matches(['+', '-']);
    w.starts_with("0x") || w.starts_with("f0x") || matches!(t, "inf" | "nan" | "qnan" | "snan" if t.len() < w.len())
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(r) = self.labels.get(n) {
            return *r;
        }
        let r = self.labels.len() as u32;
        self.labels.insert(n.to_string(), r);
        r
    }
}

const BINOPS: &[&str] = &[
    "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem",
];
const CASTS: &[&str] = &[
    "zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "ptrtoaddr", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc", "addrspacecast",
];
const PREDS: &[&str] = &["eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"];
/// (element width, number of lanes; 0 for a scalar)
pub fn shape(t: &Ty) -> (u32, u32) {
    match t {
        Ty::Vec(n, e) => (e.bits(), *n as u32),
        t => (t.bits(), 0),
    }
}
fn stat(list: &[&'static str], w: &str) -> &'static str {
    list.iter().find(|x| **x == w).copied().unwrap_or_else(|| panic!("{w}"))
}

impl<'a> P<'a> {
    fn opd(&mut self, f: &mut FnCtx, ty: &Ty) -> Opd {
        self.skip_attrs();
        if let Some(Tok::Local(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Opd::R(f.reg(&n));
        }
        let c = self.constant(ty);
        Opd::K(c, ty.clone())
    }
    fn tyopd(&mut self, f: &mut FnCtx) -> (Ty, Opd) {
        let t = self.ty();
        let o = self.opd(f, &t);
        (t, o)
    }
    fn label(&mut self, f: &mut FnCtx) -> u32 {
        if !self.eatw("label") {
            panic!("label expected");
        }
        match self.next() {
            Tok::Local(n) => f.label(&n),
            t => panic!("label: {t:?}"),
        }
    }
    fn skip_tail(&mut self) {
        // ", align N", ", !meta !n" and so on up to the next instruction
        while self.isp(',') {
            match self.t.get(self.i + 1) {
                Some(Tok::Word(w)) if w == "align" => self.i += 3,
                Some(Tok::Meta) => {
                    self.i += 2;
                    while matches!(self.peek(), Some(Tok::Meta)) {
                        self.i += 1;
                    }
                }
                Some(Tok::Word(w)) if w == "addrspace" => {
                    self.i += 2;
                    self.skip_paren();
                }
                _ => break,
            }
        }
    }
    fn flags(&mut self) {
        const FL: &[&str] = &[
            "nuw", "nsw", "exact", "disjoint", "inbounds", "nneg", "samesign", "nusw", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "weak",
        ];
        while let Some(Tok::Word(w)) = self.peek() {
            if FL.contains(&w.as_str()) {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn call(&mut self, f: &mut FnCtx, d: Option<u32>, invoke: bool) -> Inst {
        // cconv and return attributes
        loop {
            if self.is_ty() {
                break;
            }
            match self.next() {
                Tok::Word(w) => {
                    if w == "align" && matches!(self.peek(), Some(Tok::Num(_))) {
                        self.i += 1;
                    } else if self.isp('(') {
                        self.skip_paren();
                    }
                }
                Tok::Attr | Tok::Str(_) | Tok::Num(_) => {}
                t => panic!("call: {t:?}"),
            }
        }
        let ret = self.ty();
        // function type: ret (args...)
        if self.isp('(') {
            self.skip_paren();
        }
        let callee = match self.next() {
            Tok::Global(g) => Callee::Name(g),
            Tok::Local(n) => Callee::Reg(Opd::R(f.reg(&n))),
            Tok::Word(w) if w == "asm" => {
                let mut text = String::new();
                loop {
                    match self.next() {
                        Tok::Word(_) => {}
                        Tok::Str(s) => {
                            text = String::from_utf8_lossy(&s).into_owned();
                            break;
                        }
                        t => panic!("asm {t:?}"),
                    }
                }
                self.expect(',');
                self.i += 1;
                Callee::Asm(text)
            }
            Tok::Word(_) => {
                self.i -= 1;
                let c = self.constant(&Ty::Ptr);
                Callee::Reg(Opd::K(c, Ty::Ptr))
            }
            t => panic!("callee {t:?}"),
        };
        self.expect('(');
        let mut args = Vec::new();
        if !self.eat(')') {
            loop {
                let t = self.ty();
                if t == Ty::Other {
                    // metadata argument
                    while !self.isp(',') && !self.isp(')') {
                        if self.isp('(') { self.skip_paren() } else { self.i += 1; }
                    }
                    args.push((Ty::Other, Opd::K(Const::Zero, Ty::Int(64))));
                } else {
                    let o = self.opd(f, &t);
                    args.push((t, o));
                }
                if self.eat(')') {
                    break;
                }
                self.expect(',');
            }
        }
        // trailing function attributes and operand bundles
        loop {
            match self.peek() {
                Some(Tok::Attr) | Some(Tok::Str(_)) => self.i += 1,
                Some(Tok::Word(w)) if invoke && w == "to" => break,
                Some(Tok::Word(w)) if matches!(w.as_str(), "nounwind" | "noreturn" | "cold" | "noinline" | "memory" | "readonly" | "willreturn") => {
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_paren();
                    }
                }
                Some(Tok::P('[')) => {
                    let mut d = 0;
                    loop {
                        match self.next() {
                            Tok::P('[') => d += 1,
                            Tok::P(']') => d -= 1,
                            _ => {}
                        }
                        if d == 0 {
                            break;
                        }
                    }
                }
                _ => break,
            }
        }
        let mut normal = None;
        if invoke {
            assert!(self.eatw("to"));
            normal = Some(self.label(f));
            assert!(self.eatw("unwind"));
            self.label(f);
        }
        Inst::Call { d, ret, callee, args, normal }
    }
    fn atomic_order(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) if matches!(w.as_str(), "unordered" | "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "syncscope") => {
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_paren();
                    }
                }
                _ => return,
            }
        }
    }
    fn inst(&mut self, f: &mut FnCtx, blk: &mut Block) {
        let mut d = None;
        if let Some(Tok::Local(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            self.expect('=');
            d = Some(f.reg(&n));
        }
        let w = match self.next() {
            Tok::Word(w) => w,
            t => panic!("instruction expected, got {t:?}"),
        };
        let dd = d.unwrap_or(u32::MAX);
        let ins = match w.as_str() {
            "tail" | "musttail" | "notail" => {
                self.i += 1;
                self.flags();
                self.call(f, d, false)
            }
            "call" => {
                self.flags();
                self.call(f, d, false)
            }
            "invoke" => self.call(f, d, true),
            w if BINOPS.contains(&w) => {
                self.flags();
                let ty = self.ty();
                let a = self.opd(f, &ty);
                self.expect(',');
                let b = self.opd(f, &ty);
                use crate::expr::Op;
                let (w_, lanes) = shape(&ty);
                let op = match w {
                    "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv,
                    "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor,
                    "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr,
                    _ => {
                        blk.insts.push(Inst::FBin { op: stat(BINOPS, w), w: w_, d: dd, a, b });
                        self.skip_tail();
                        return;
                    }
                };
                Inst::Bin { op, w: w_, lanes, d: dd, a, b }
            }
            w if CASTS.contains(&w) => {
                self.flags();
                let (from, a) = self.tyopd(f);
                assert!(self.eatw("to"));
                let to = self.ty();
                let kind = match stat(CASTS, w) {
                    "zext" => CastK::Zext, "sext" => CastK::Sext, "trunc" => CastK::Trunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                        if from.bits() < to.bits() { CastK::Zext } else if from.bits() > to.bits() { CastK::Trunc } else { CastK::Same }
                    }
                    "bitcast" => CastK::Same,
                    x => CastK::Fp(x),
                };
                Inst::Cast { kind, from, to, d: dd, a }
            }
            "icmp" => {
                self.flags();
                let p = match self.next() {
                    Tok::Word(w) => w,
                    t => panic!("{t:?}"),
                };
                let ty = self.ty();
                let a = self.opd(f, &ty);
                self.expect(',');
                let b = self.opd(f, &ty);
                use crate::expr::Op;
                let (w_, lanes) = shape(&ty);
                let (op, swap, neg) = match stat(PREDS, &p) {
                    "eq" => (Op::Eq, false, false), "ne" => (Op::Eq, false, true),
                    "ult" => (Op::Ult, false, false), "ule" => (Op::Ule, false, false),
                    "ugt" => (Op::Ult, true, false), "uge" => (Op::Ule, true, false),
                    "slt" => (Op::Slt, false, false), "sle" => (Op::Sle, false, false),
                    "sgt" => (Op::Slt, true, false), _ => (Op::Sle, true, false),
                };
                let (a, b) = if swap { (b, a) } else { (a, b) };
                Inst::Icmp { op, neg, w: w_, lanes, d: dd, a, b }
            }
            "fcmp" => {
                self.flags();
                let p = match self.next() {
                    Tok::Word(w) => w,
                    t => panic!("{t:?}"),
                };
                let ty = self.ty();
                let a = self.opd(f, &ty);
                self.expect(',');
                let b = self.opd(f, &ty);
                Inst::Fcmp { pred: p, w: ty.bits(), d: dd, a, b }
            }
            "fneg" => {
                self.flags();
                let (ty, a) = self.tyopd(f);
                let (w, lanes) = shape(&ty);
                if lanes == 0 {
                    Inst::Bin { op: crate::expr::Op::Xor, w, lanes, d: dd, a, b: Opd::K(Const::Int(1 << (w - 1)), Ty::Int(w)) }
                } else {
                    Inst::Unsupported("fneg".into())
                }
            }
            "load" => {
                self.flags();
                self.eatw("atomic");
                self.flags();
                let ty = self.ty();
                self.expect(',');
                let (_, p) = self.tyopd(f);
                self.atomic_order();
                Inst::Load { d: dd, ty, p }
            }
            "store" => {
                self.flags();
                self.eatw("atomic");
                self.flags();
                let (ty, v) = self.tyopd(f);
                self.expect(',');
                let (_, p) = self.tyopd(f);
                self.atomic_order();
                Inst::Store { ty, v, p }
            }
            "getelementptr" => {
                self.flags();
                if self.isw("inrange") { self.i += 1; self.skip_paren(); }
                let ty = self.ty();
                self.expect(',');
                let (bt, base) = self.tyopd(f);
                let mut off: i64 = 0;
                let mut idx = Vec::new();
                let mut cur = ty;
                let mut first = true;
                while self.isp(',') && !matches!(self.t.get(self.i + 1), Some(Tok::Meta)) {
                    self.i += 1;
                    let (it, o) = self.tyopd(f);
                    if first {
                        first = false;
                        add_idx(&mut off, &mut idx, o, &it, cur.size());
                    } else {
                        match &cur.clone() {
                            Ty::Struct(..) => {
                                let k = match &o {
                                    Opd::K(Const::Int(k), _) => *k as u64,
                                    Opd::K(Const::Zero, _) => 0,
                                    _ => panic!("struct index"),
                                };
                                let (fo, ft) = cur.field(k);
                                off += fo as i64;
                                cur = ft;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                add_idx(&mut off, &mut idx, o, &it, t.size());
                                cur = (**t).clone();
                            }
                            t => panic!("gep into {t:?}"),
                        }
                    }
                }
                Inst::Gep { d: dd, base, off, idx, vec: matches!(bt, Ty::Vec(..)) }
            }
            "alloca" => {
                self.eatw("inalloca");
                let ty = self.ty();
                let mut n = Opd::K(Const::Int(1), Ty::Int(64));
                if self.isp(',') && !matches!(self.t.get(self.i + 1), Some(Tok::Word(w)) if w == "align") && !matches!(self.t.get(self.i + 1), Some(Tok::Meta)) {
                    self.i += 1;
                    let (_, o) = self.tyopd(f);
                    n = o;
                }
                Inst::Alloca { d: dd, size: ty.size(), n }
            }
            "select" => {
                self.flags();
                let (cty, c) = self.tyopd(f);
                self.expect(',');
                let (ty, a) = self.tyopd(f);
                self.expect(',');
                let (_, b) = self.tyopd(f);
                Inst::Select { d: dd, cty, ty, c, a, b }
            }
            "phi" => {
                self.flags();
                let ty = self.ty();
                let mut inc = Vec::new();
                loop {
                    self.expect('[');
                    let o = self.opd(f, &ty);
                    self.expect(',');
                    let l = match self.next() {
                        Tok::Local(n) => f.label(&n),
                        t => panic!("phi {t:?}"),
                    };
                    self.expect(']');
                    inc.push((o, l));
                    if self.isp(',') && matches!(self.t.get(self.i + 1), Some(Tok::P('['))) {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                self.skip_tail();
                blk.phis.push(Phi { d: dd, inc });
                return;
            }
            "br" => {
                if self.isw("label") {
                    Inst::Br(self.label(f))
                } else {
                    let (_, c) = self.tyopd(f);
                    self.expect(',');
                    let a = self.label(f);
                    self.expect(',');
                    let b = self.label(f);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, v) = self.tyopd(f);
                self.expect(',');
                let def = self.label(f);
                self.expect('[');
                let mut cases = Vec::new();
                while !self.eat(']') {
                    let t = self.ty();
                    let c = match self.constant(&t) {
                        Const::Int(k) => k,
                        Const::Zero => 0,
                        c => panic!("case {c:?}"),
                    };
                    self.expect(',');
                    let l = self.label(f);
                    cases.push((c, l));
                }
                Inst::Switch { w: ty.bits(), v, def, cases }
            }
            "ret" => {
                let ty = self.ty();
                if ty == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let o = self.opd(f, &ty);
                    Inst::Ret(Some(o))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => {
                let _ = self.tyopd(f);
                Inst::Unreachable
            }
            "landingpad" => {
                let _ = self.ty();
                loop {
                    if self.eatw("cleanup") {
                    } else if self.eatw("catch") || self.eatw("filter") {
                        let t = self.ty();
                        let _ = self.constant(&t);
                    } else {
                        break;
                    }
                }
                Inst::Unsupported("landingpad".into())
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(f);
                let mut path = Vec::new();
                while self.isp(',') && matches!(self.t.get(self.i + 1), Some(Tok::Num(_))) {
                    self.i += 1;
                    path.push(self.num() as u32);
                }
                Inst::Extract { d: dd, a, path }
            }
            "insertvalue" => {
                let (ty, a) = self.tyopd(f);
                self.expect(',');
                let (_, v) = self.tyopd(f);
                let mut path = Vec::new();
                while self.isp(',') && matches!(self.t.get(self.i + 1), Some(Tok::Num(_))) {
                    self.i += 1;
                    path.push(self.num() as u32);
                }
                Inst::Insert { d: dd, ty, a, v, path }
            }
            "extractelement" => {
                let (_, a) = self.tyopd(f);
                self.expect(',');
                let (_, i) = self.tyopd(f);
                Inst::ExtractEl { d: dd, a, i }
            }
            "insertelement" => {
                let (ty, a) = self.tyopd(f);
                self.expect(',');
                let (_, v) = self.tyopd(f);
                self.expect(',');
                let (_, i) = self.tyopd(f);
                Inst::InsertEl { d: dd, ty, a, v, i }
            }
            "shufflevector" => {
                let (ty, a) = self.tyopd(f);
                self.expect(',');
                let (_, b) = self.tyopd(f);
                self.expect(',');
                let mt = self.ty();
                let m = self.constant(&mt);
                let n = match &mt {
                    Ty::Vec(n, _) => *n,
                    _ => panic!(),
                };
                let mask = match m {
                    Const::Zero | Const::Undef => vec![0i64; n as usize],
                    Const::Splat(b) => match b.1 {
                        Const::Int(k) => vec![k as i64; n as usize],
                        _ => vec![0; n as usize],
                    },
                    Const::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Const::Int(k) => *k as i64,
                            Const::Zero => 0,
                            _ => -1,
                        })
                        .collect(),
                    c => panic!("shuffle mask {c:?}"),
                };
                Inst::Shuffle { d: dd, ty, a, b, mask }
            }
            "atomicrmw" => {
                self.flags();
                let op = match self.next() {
                    Tok::Word(w) => w,
                    t => panic!("{t:?}"),
                };
                let (_, p) = self.tyopd(f);
                self.expect(',');
                let (ty, v) = self.tyopd(f);
                self.atomic_order();
                Inst::Rmw { d: dd, op, ty, p, v }
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.tyopd(f);
                self.expect(',');
                let (ty, c) = self.tyopd(f);
                self.expect(',');
                let (_, n) = self.tyopd(f);
                self.atomic_order();
                Inst::CmpXchg { d: dd, ty, p, c, n }
            }
            "fence" => {
                self.atomic_order();
                Inst::Nop
            }
            "freeze" => {
                let (_, a) = self.tyopd(f);
                Inst::Mov { d: dd, a }
            }
            w => panic!("unknown instruction {w}"),
        };
        self.skip_tail();
        blk.insts.push(ins);
    }
}

fn add_idx(off: &mut i64, idx: &mut Vec<(Opd, u32, u64)>, o: Opd, it: &Ty, scale: u64) {
    match &o {
        Opd::K(Const::Int(k), _) => {
            let w = it.bits();
            let s = 128 - w;
            let v = ((*k << s) as i128 >> s) as i64;
            *off = off.wrapping_add(v.wrapping_mul(scale as i64));
        }
        Opd::K(Const::Zero, _) => {}
        _ => idx.push((o, it.bits(), scale)),
    }
}

pub struct Module<'a> {
    pub text: &'a [u8],
    pub named: HashMap<String, Ty>,
    pub globals: Vec<(String, &'a [u8])>, // name, text after '='
    pub funcs: HashMap<String, (usize, usize)>, // define: byte range
    pub decls: Vec<String>,
}

impl<'a> Module<'a> {
    pub fn scan(text: &'a [u8]) -> Module<'a> {
        let mut m = Module { text, named: HashMap::new(), globals: vec![], funcs: HashMap::new(), decls: vec![] };
        let mut i = 0;
        let n = text.len();
        let eol = |i: usize| -> usize {
            let mut j = i;
            while j < n && text[j] != b'\n' {
                j += 1;
            }
            j
        };
        let fname = |line: &[u8]| -> String {
            let at = line.iter().position(|c| *c == b'@').unwrap();
            if line[at + 1] == b'"' {
                let e = line[at + 2..].iter().position(|c| *c == b'"').unwrap();
                String::from_utf8_lossy(&line[at + 2..at + 2 + e]).into_owned()
            } else {
                let e = line[at + 1..].iter().position(|c| !is_idc(*c)).unwrap();
                String::from_utf8_lossy(&line[at + 1..at + 1 + e]).into_owned()
            }
        };
        let mut named_lines: Vec<&[u8]> = vec![];
        while i < n {
            let e = eol(i);
            let line = &text[i..e];
            if line.starts_with(b"define") {
                // body up to a line "}"
                let mut j = e + 1;
                loop {
                    let k = eol(j);
                    if &text[j..k] == b"}" {
                        m.funcs.insert(fname(line), (i, j));
                        i = k + 1;
                        break;
                    }
                    j = k + 1;
                }
                continue;
            } else if line.starts_with(b"declare") {
                m.decls.push(fname(line));
            } else if line.starts_with(b"@") {
                let eq = line.windows(3).position(|w| w == b" = ").unwrap();
                let nm = fname(line);
                m.globals.push((nm, &line[eq + 3..]));
            } else if line.starts_with(b"%") {
                named_lines.push(line);
            }
            i = e + 1;
        }
        for l in named_lines {
            let t = lex(l);
            if let Tok::Local(n) = &t[0] {
                let named = std::mem::take(&mut m.named);
                let ty = {
                    let mut p = P { t: &t, i: 3, named: &named };
                    if p.isw("opaque") { Ty::Other } else { p.ty() }
                };
                m.named = named;
                m.named.insert(n.clone(), ty);
            }
        }
        m
    }
    /// Returns (type, initialiser, thread_local, constant).
    pub fn parse_global(&self, txt: &[u8]) -> (Ty, Option<Const>, bool) {
        let t = lex(txt);
        let mut p = P { t: &t, i: 0, named: &self.named };
        let mut external = false;
        loop {
            match p.next() {
                Tok::Word(w) if w == "global" || w == "constant" => break,
                Tok::Word(w) if w == "external" || w == "extern_weak" => external = true,
                Tok::Word(w) if w == "alias" => return (Ty::Other, None, false),
                _ => {}
            }
        }
        let constant = matches!(&t[p.i - 1], Tok::Word(w) if w == "constant");
        let ty = p.ty();
        if external {
            return (ty, None, constant);
        }
        let c = p.constant(&ty);
        (ty, Some(c), constant)
    }
    pub fn parse_func(&self, name: &str) -> Func {
        let (s, e) = self.funcs[name];
        let t = lex(&self.text[s..e]);
        let mut p = P { t: &t, i: 0, named: &self.named };
        let mut f = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
        // header
        while !matches!(p.peek(), Some(Tok::Global(_))) {
            p.i += 1;
        }
        p.i += 1;
        p.expect('(');
        let mut params = Vec::new();
        let mut byval = Vec::new();
        let mut unnamed = 0u32;
        if !p.eat(')') {
            loop {
                if matches!(p.peek(), Some(Tok::Dots)) {
                    p.i += 1;
                    p.expect(')');
                    break;
                }
                let _ = p.ty();
                let mut bv = None;
                loop {
                    match p.peek() {
                        Some(Tok::Word(w)) if w == "byval" => {
                            p.i += 1;
                            p.expect('(');
                            let t = p.ty();
                            bv = Some(t.size());
                            p.expect(')');
                        }
                        Some(Tok::Word(w)) => {
                            let al = w == "align";
                            p.i += 1;
                            if al && matches!(p.peek(), Some(Tok::Num(_))) {
                                p.i += 1;
                            } else if p.isp('(') {
                                p.skip_paren();
                            }
                        }
                        Some(Tok::Str(_)) | Some(Tok::Attr) => p.i += 1,
                        _ => break,
                    }
                }
                if let Some(Tok::Local(n)) = p.peek() {
                    let n = n.clone();
                    p.i += 1;
                    if n.bytes().all(|b| b.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    params.push(f.reg(&n));
                } else {
                    let n = unnamed.to_string();
                    unnamed += 1;
                    params.push(f.reg(&n));
                }
                byval.push(bv);
                if p.eat(')') {
                    break;
                }
                p.expect(',');
            }
        }
        // skip to '{'
        loop {
            match p.next() {
                Tok::P('{') => break,
                Tok::P('(') => {
                    p.i -= 1;
                    p.skip_paren();
                }
                _ => {}
            }
        }
        let mut order: Vec<u32> = Vec::new();
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut cur: Option<(u32, Block)> = None;
        while p.i < t.len() {
            if let Some(Tok::LabelDef(l)) = p.peek() {
                let l = l.clone();
                p.i += 1;
                if let Some((id, b)) = cur.take() {
                    order.push(id);
                    blocks.insert(id, b);
                }
                let id = f.label(&l);
                cur = Some((id, Block::default()));
                continue;
            }
            if cur.is_none() {
                let id = f.label(&unnamed.to_string());
                cur = Some((id, Block::default()));
            }
            let b = &mut cur.as_mut().unwrap().1;
            p.inst(&mut f, b);
        }
        if let Some((id, b)) = cur.take() {
            order.push(id);
            blocks.insert(id, b);
        }
        // entry must be block 0: labels may have been numbered in any order
        let mut map: HashMap<u32, u32> = HashMap::new();
        for (i, id) in order.iter().enumerate() {
            map.insert(*id, i as u32);
        }
        let mut out = Vec::new();
        for id in &order {
            let mut b = blocks.remove(id).unwrap();
            for ph in &mut b.phis {
                for (_, l) in &mut ph.inc {
                    *l = *map.get(l).unwrap_or(&u32::MAX);
                }
            }
            for ins in &mut b.insts {
                match ins {
                    Inst::Br(l) => *l = map[l],
                    Inst::CondBr(_, a, b) => {
                        *a = map[a];
                        *b = map[b];
                    }
                    Inst::Switch { def, cases, .. } => {
                        *def = map[def];
                        for (_, l) in cases {
                            *l = map[l];
                        }
                    }
                    Inst::Call { normal: Some(l), .. } => *l = map[l],
                    _ => {}
                }
            }
            out.push(b);
        }
        Func { id: 0, consts: Vec::new(), name: name.to_string(), nregs: f.regs.len() as u32, params, byval, blocks: out }
    }
}

impl Inst {
    pub fn opds(&mut self, g: &mut dyn FnMut(&mut Opd)) {
        match self {
            Inst::Bin { a, b, .. } | Inst::FBin { a, b, .. } | Inst::Icmp { a, b, .. } | Inst::Fcmp { a, b, .. } => { g(a); g(b) }
            Inst::Load { p, .. } => g(p),
            Inst::Store { v, p, .. } => { g(v); g(p) }
            Inst::Gep { base, idx, .. } => { g(base); for x in idx { g(&mut x.0) } }
            Inst::Alloca { n, .. } => g(n),
            Inst::Cast { a, .. } | Inst::Extract { a, .. } | Inst::Mov { a, .. } => g(a),
            Inst::Select { c, a, b, .. } => { g(c); g(a); g(b) }
            Inst::Call { callee, args, .. } => {
                if let Callee::Reg(o) = callee { g(o) }
                for x in args { g(&mut x.1) }
            }
            Inst::CondBr(c, _, _) => g(c),
            Inst::Switch { v, .. } => g(v),
            Inst::Ret(Some(o)) => g(o),
            Inst::Insert { a, v, .. } => { g(a); g(v) }
            Inst::ExtractEl { a, i, .. } => { g(a); g(i) }
            Inst::InsertEl { a, v, i, .. } => { g(a); g(v); g(i) }
            Inst::Shuffle { a, b, .. } => { g(a); g(b) }
            Inst::Rmw { p, v, .. } => { g(p); g(v) }
            Inst::CmpXchg { p, c, n, .. } => { g(p); g(c); g(n) }
            _ => {}
        }
    }
}
