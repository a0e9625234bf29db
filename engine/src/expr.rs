//! Bit-vector expression arena.
//!
//! An expression whose value depends on exactly one symbolic input byte is kept
//! in a canonical form: the table of its values over that byte's domain
//! (`Node::Tab`).  Everything else is a hash-consed bit-vector DAG.  Both forms
//! are handed to Z3 (see solver.rs), tables as piecewise ITE terms.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Arg {
    C(u128),
    E(Ex),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Un {
    Zext, Sext, Extract(u32), Ctlz, Cttz, Ctpop,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Tab { sym: u32, tab: u32 },
    Bin(Op, u32, Arg, Arg), // operand width
    Un(Un, u32, Arg),       // operand width
    Ite(Ex, Arg, Arg),
    Concat(Arg, u32, Arg, u32), // hi, hi width, lo, lo width
}

pub struct Tab {
    pub w: u32,
    pub vals: Rc<Vec<u64>>,
    pub truth: [u64; 4], // for w == 1
}

pub struct SymInfo {
    pub k: u32,
    pub dom: u32,
}

pub type Mask = [u64; 4];

pub fn mask_and(a: &Mask, b: &Mask) -> Mask {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn mask_andnot(a: &Mask, b: &Mask) -> Mask {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn mask_empty(a: &Mask) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn mask_has(a: &Mask, i: usize) -> bool {
    a[i >> 6] >> (i & 63) & 1 == 1
}
pub fn mask_first(a: &Mask) -> usize {
    for i in 0..4 {
        if a[i] != 0 {
            return i * 64 + a[i].trailing_zeros() as usize;
        }
    }
    panic!("empty mask")
}
pub fn mask_iter(a: Mask) -> impl Iterator<Item = usize> {
    (0..256usize).filter(move |i| mask_has(&a, *i))
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    pub width: Vec<u32>,
    pub sup: Vec<Rc<Vec<u32>>>,
    cons: HashMap<(Node, u32), Ex>,
    pub tabs: Vec<Tab>,
    tabcons: HashMap<(u32, Rc<Vec<u64>>), u32>,
    pub syms: Vec<SymInfo>,
    symmap: HashMap<(u32, u32), u32>,
    pub doms: Vec<Rc<Vec<u8>>>,
    dommap: HashMap<Vec<u8>, u32>,
    memo: HashMap<(Op, u32, u32, Arg, Arg), (u32, Option<u64>)>,
    memo_un: HashMap<(Un, u32, u32, u32, u32), Arg>,
    eval_epoch: Vec<u32>,
    eval_val: Vec<u128>,
    epoch: u32,
}

pub fn wmask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
fn sx(w: u32, v: u128) -> i128 {
    if w >= 128 { v as i128 } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn cbin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = wmask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(w, a), sx(w, b));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 & m }
        }
        Op::SRem => {
            let (x, y) = (sx(w, a), sx(w, b));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(w, a) >> s) as u128 & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(w, a) < sx(w, b)) as u128,
        Op::Sle => (sx(w, a) <= sx(w, b)) as u128,
    }
}
pub fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}
pub fn cun(u: Un, w: u32, rw: u32, a: u128) -> u128 {
    match u {
        Un::Zext => a,
        Un::Sext => sx(w, a) as u128 & wmask(rw),
        Un::Extract(lo) => (a >> lo) & wmask(rw),
        Un::Ctlz => if a == 0 { w as u128 } else { (w - (128 - a.leading_zeros())) as u128 },
        Un::Cttz => if a == 0 { w as u128 } else { a.trailing_zeros() as u128 },
        Un::Ctpop => a.count_ones() as u128,
    }
}

impl Arena {
    pub fn dom(&mut self, vals: Vec<u8>) -> u32 {
        if let Some(d) = self.dommap.get(&vals) {
            return *d;
        }
        let d = self.doms.len() as u32;
        self.doms.push(Rc::new(vals.clone()));
        self.dommap.insert(vals, d);
        d
    }
    pub fn full_mask(&self, dom: u32) -> Mask {
        let n = self.doms[dom as usize].len();
        let mut m = [0u64; 4];
        for i in 0..n {
            m[i >> 6] |= 1 << (i & 63);
        }
        m
    }
    pub fn sym(&mut self, k: u32, dom: u32) -> (u32, Arg) {
        let g = match self.symmap.get(&(k, dom)) {
            Some(g) => *g,
            None => {
                let g = self.syms.len() as u32;
                self.syms.push(SymInfo { k, dom });
                self.symmap.insert((k, dom), g);
                g
            }
        };
        let vals: Vec<u64> = self.doms[dom as usize].iter().map(|v| *v as u64).collect();
        let e = self.mk_tab(g, 8, vals);
        (g, e)
    }
    pub fn tab_id(&mut self, w: u32, vals: Vec<u64>) -> u32 {
        let vals = Rc::new(vals);
        if let Some(t) = self.tabcons.get(&(w, vals.clone())) {
            return *t;
        }
        let mut truth = [0u64; 4];
        if w == 1 {
            for (i, v) in vals.iter().enumerate() {
                if *v != 0 {
                    truth[i >> 6] |= 1 << (i & 63);
                }
            }
        }
        let t = self.tabs.len() as u32;
        self.tabs.push(Tab { w, vals: vals.clone(), truth });
        self.tabcons.insert((w, vals), t);
        t
    }
    pub fn mk_tab(&mut self, sym: u32, w: u32, vals: Vec<u64>) -> Arg {
        if vals.iter().all(|v| *v == vals[0]) {
            return Arg::C(vals[0] as u128);
        }
        let t = self.tab_id(w, vals);
        self.tab_node(sym, w, t)
    }
    pub fn tab_arg(&mut self, sym: u32, tab: u32) -> Arg {
        let w = self.tabs[tab as usize].w;
        self.tab_node(sym, w, tab)
    }
    fn tab_node(&mut self, sym: u32, w: u32, t: u32) -> Arg {
        let n = Node::Tab { sym, tab: t };
        if let Some(e) = self.cons.get(&(n.clone(), w)) {
            return Arg::E(*e);
        }
        Arg::E(self.push(n, w, Rc::new(vec![sym])))
    }
    fn push(&mut self, n: Node, w: u32, sup: Rc<Vec<u32>>) -> Ex {
        let id = self.nodes.len() as Ex;
        self.cons.insert((n.clone(), w), id);
        self.nodes.push(n);
        self.width.push(w);
        self.sup.push(sup);
        id
    }
    fn union(&self, a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
        if Rc::ptr_eq(a, b) || a == b {
            return a.clone();
        }
        let mut v: Vec<u32> = a.iter().chain(b.iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        Rc::new(v)
    }
    fn mk_node(&mut self, n: Node, w: u32) -> Ex {
        if let Some(e) = self.cons.get(&(n.clone(), w)) {
            return *e;
        }
        let mut args: Vec<Ex> = Vec::new();
        let mut add = |a: &Arg| {
            if let Arg::E(e) = a {
                args.push(*e)
            }
        };
        match &n {
            Node::Tab { .. } => unreachable!(),
            Node::Bin(_, _, a, b) => { add(a); add(b) }
            Node::Un(_, _, a) => add(a),
            Node::Ite(c, a, b) => { add(&Arg::E(*c)); add(a); add(b) }
            Node::Concat(a, _, b, _) => { add(a); add(b) }
        }
        let mut s = self.sup[args[0] as usize].clone();
        for a in &args[1..] {
            let t = self.sup[*a as usize].clone();
            s = self.union(&s, &t);
        }
        self.push(n, w, s)
    }
    fn single(&self, a: Arg) -> Option<Option<u32>> {
        // Some(None): constant; Some(Some(s)): depends on s alone
        match a {
            Arg::C(_) => Some(None),
            Arg::E(e) => {
                let s = &self.sup[e as usize];
                if s.len() == 1 { Some(Some(s[0])) } else { None }
            }
        }
    }
    fn joint(&self, xs: &[Arg]) -> Option<u32> {
        let mut r = None;
        for x in xs {
            match self.single(*x) {
                None => return None,
                Some(None) => {}
                Some(Some(s)) => match r {
                    None => r = Some(s),
                    Some(t) if t == s => {}
                    _ => return None,
                },
            }
        }
        r
    }
    /// Values of a single-symbol argument over the domain of `sym`.
    pub fn vals_of(&mut self, a: Arg, sym: u32) -> Vec<u128> {
        let n = self.doms[self.syms[sym as usize].dom as usize].len();
        match a {
            Arg::C(c) => vec![c; n],
            Arg::E(e) => {
                if let Node::Tab { tab, .. } = self.nodes[e as usize] {
                    return self.tabs[tab as usize].vals.iter().map(|v| *v as u128).collect();
                }
                let k = self.syms[sym as usize].k as usize;
                let dom = self.doms[self.syms[sym as usize].dom as usize].clone();
                let mut model = vec![0u8; k + 1];
                (0..n)
                    .map(|i| {
                        model[k] = dom[i];
                        self.eval(Arg::E(e), &model)
                    })
                    .collect()
            }
        }
    }

    pub fn bin(&mut self, op: Op, w: u32, a: Arg, b: Arg) -> Arg {
        let rw = if is_cmp(op) { 1 } else { w };
        if let (Arg::C(x), Arg::C(y)) = (a, b) {
            return Arg::C(cbin(op, w, x, y));
        }
        if rw <= 64 {
            if let Some(s) = self.joint(&[a, b]) {
                // memo on table ids so that all symbols share the work
                let ka = self.tab_key(a);
                let kb = self.tab_key(b);
                let dom = self.syms[s as usize].dom;
                if let (Some(ka), Some(kb)) = (ka, kb) {
                    if let Some((t, c)) = self.memo.get(&(op, w, dom, ka, kb)) {
                        let (t, c) = (*t, *c);
                        return match c {
                            Some(c) => Arg::C(c as u128),
                            None => self.tab_node(s, rw, t),
                        };
                    }
                    let va = self.vals_of(a, s);
                    let vb = self.vals_of(b, s);
                    let vals: Vec<u64> =
                        va.iter().zip(&vb).map(|(x, y)| cbin(op, w, *x, *y) as u64).collect();
                    let r = self.mk_tab(s, rw, vals);
                    let ent = match r {
                        Arg::C(c) => (0, Some(c as u64)),
                        Arg::E(e) => match self.nodes[e as usize] {
                            Node::Tab { tab, .. } => (tab, None),
                            _ => unreachable!(),
                        },
                    };
                    self.memo.insert((op, w, dom, ka, kb), ent);
                    return r;
                }
                let va = self.vals_of(a, s);
                let vb = self.vals_of(b, s);
                let vals: Vec<u64> =
                    va.iter().zip(&vb).map(|(x, y)| cbin(op, w, *x, *y) as u64).collect();
                return self.mk_tab(s, rw, vals);
            }
        }
        // multi-symbol: light simplification
        if a == b {
            match op {
                Op::Sub | Op::Xor => return Arg::C(0),
                Op::And | Op::Or => return a,
                Op::Eq | Op::Ule | Op::Sle => return Arg::C(1),
                Op::Ult | Op::Slt => return Arg::C(0),
                _ => {}
            }
        }
        let m = wmask(w);
        match (op, a, b) {
            (Op::Add | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr | Op::Sub, x, Arg::C(0)) => return x,
            (Op::Add | Op::Or | Op::Xor, Arg::C(0), x) => return x,
            (Op::And, _, Arg::C(0)) | (Op::And, Arg::C(0), _) => return Arg::C(0),
            (Op::Mul, _, Arg::C(0)) | (Op::Mul, Arg::C(0), _) => return Arg::C(0),
            (Op::Mul, x, Arg::C(1)) | (Op::Mul, Arg::C(1), x) => return x,
            (Op::UDiv, x, Arg::C(1)) => return x,
            (Op::And, x, Arg::C(c)) | (Op::And, Arg::C(c), x) if c == m => return x,
            (Op::Or, _, Arg::C(c)) | (Op::Or, Arg::C(c), _) if c == m => return Arg::C(m),
            _ => {}
        }
        if w == 1 {
            match (op, a, b) {
                (Op::Eq, x, Arg::C(1)) | (Op::Eq, Arg::C(1), x) => return x,
                (Op::Eq, x, Arg::C(0)) | (Op::Eq, Arg::C(0), x) => {
                    return self.bin(Op::Xor, 1, x, Arg::C(1))
                }
                (Op::Xor, Arg::E(x), Arg::C(1)) => {
                    if let Node::Bin(Op::Xor, 1, y, Arg::C(1)) = self.nodes[x as usize] {
                        return y;
                    }
                }
                (Op::Xor, Arg::C(1), x) => return self.bin(Op::Xor, 1, x, Arg::C(1)),
                _ => {}
            }
        }
        // push constants through ITE with constant arms
        if let (Arg::E(x), Arg::C(k)) = (a, b) {
            if let Node::Ite(c, Arg::C(p), Arg::C(q)) = self.nodes[x as usize] {
                let (rp, rq) = (cbin(op, w, p, k), cbin(op, w, q, k));
                return self.ite(Arg::E(c), Arg::C(rp), Arg::C(rq), rw);
            }
            if let Node::Un(Un::Zext, iw, y) = self.nodes[x as usize] {
                match op {
                    Op::Eq => {
                        if k > wmask(iw) { return Arg::C(0); }
                        return self.bin(Op::Eq, iw, y, Arg::C(k));
                    }
                    Op::Ult => {
                        if k > wmask(iw) { return Arg::C(1); }
                        return self.bin(Op::Ult, iw, y, Arg::C(k));
                    }
                    Op::And if k <= wmask(iw) && iw < w => {
                        let r = self.bin(Op::And, iw, y, Arg::C(k));
                        return self.un(Un::Zext, iw, w, r);
                    }
                    _ => {}
                }
            }
        }
        if let (Arg::E(x), Arg::C(k)) | (Arg::C(k), Arg::E(x)) = (a, b) {
            if matches!(op, Op::And | Op::Or | Op::Xor | Op::Eq) {
                if let Node::Concat(h, hw, l, lw) = self.nodes[x as usize] {
                    let p = self.bin(op, hw, h, Arg::C(k >> lw));
                    if op == Op::Eq && p == Arg::C(0) { return p; }
                    let q = self.bin(op, lw, l, Arg::C(k & wmask(lw)));
                    if op == Op::Eq {
                        return self.bin(Op::And, 1, p, q);
                    }
                    return self.concat(p, hw, q, lw);
                }
                if let Node::Un(Un::Zext, iw, y) = self.nodes[x as usize] {
                    if op == Op::Eq {
                        if k > wmask(iw) { return Arg::C(0); }
                        return self.bin(Op::Eq, iw, y, Arg::C(k));
                    }
                }
            }
        }
        if let (Arg::C(k), Arg::E(x)) = (a, b) {
            if let Node::Ite(c, Arg::C(p), Arg::C(q)) = self.nodes[x as usize] {
                let (rp, rq) = (cbin(op, w, k, p), cbin(op, w, k, q));
                return self.ite(Arg::E(c), Arg::C(rp), Arg::C(rq), rw);
            }
        }
        let (a, b) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                // canonical order: expression first, constants last
                match (a, b) {
                    (Arg::C(_), Arg::E(_)) => (b, a),
                    (Arg::E(x), Arg::E(y)) if x > y => (b, a),
                    _ => (a, b),
                }
            }
            _ => (a, b),
        };
        Arg::E(self.mk_node(Node::Bin(op, w, a, b), rw))
    }
    fn tab_key(&self, a: Arg) -> Option<Arg> {
        match a {
            Arg::C(_) => Some(a),
            Arg::E(e) => match self.nodes[e as usize] {
                Node::Tab { tab, .. } => Some(Arg::E(tab)),
                _ => None,
            },
        }
    }
    pub fn not(&mut self, a: Arg) -> Arg {
        self.bin(Op::Xor, 1, a, Arg::C(1))
    }
    pub fn un(&mut self, u: Un, w: u32, rw: u32, a: Arg) -> Arg {
        if let Arg::C(x) = a {
            return Arg::C(cun(u, w, rw, x));
        }
        if rw == w && matches!(u, Un::Zext | Un::Sext | Un::Extract(_)) {
            return a;
        }
        if rw <= 64 {
            if let Some(s) = self.joint(&[a]) {
                let key = match self.tab_key(a) {
                    Some(Arg::E(t)) => Some((u, w, rw, self.syms[s as usize].dom, t)),
                    _ => None,
                };
                if let Some(k) = &key {
                    match self.memo_un.get(k) {
                        Some(Arg::C(c)) => return Arg::C(*c),
                        Some(Arg::E(t)) => { let t = *t; return self.tab_node(s, rw, t); }
                        None => {}
                    }
                }
                let va = self.vals_of(a, s);
                let vals: Vec<u64> = va.iter().map(|x| cun(u, w, rw, *x) as u64).collect();
                let r = self.mk_tab(s, rw, vals);
                if let Some(k) = key {
                    let v = self.tab_key(r).unwrap();
                    self.memo_un.insert(k, v);
                }
                return r;
            }
        }
        let Arg::E(e) = a else { unreachable!() };
        let n = self.nodes[e as usize].clone();
        match (u, n) {
            (_, Node::Ite(c, Arg::C(p), Arg::C(q))) => {
                return self.ite(Arg::E(c), Arg::C(cun(u, w, rw, p)), Arg::C(cun(u, w, rw, q)), rw)
            }
            (Un::Zext, Node::Un(Un::Zext, iw, x)) => return self.un(Un::Zext, iw, rw, x),
            (Un::Extract(lo), Node::Un(Un::Extract(lo2), iw, x)) => {
                return self.un(Un::Extract(lo + lo2), iw, rw, x)
            }
            (Un::Extract(lo), Node::Concat(hi, hw, l, lw)) => {
                if lo + rw <= lw {
                    return self.un(Un::Extract(lo), lw, rw, l);
                }
                if lo >= lw {
                    return self.un(Un::Extract(lo - lw), hw, rw, hi);
                }
                let a = self.un(Un::Extract(lo), lw, lw - lo, l);
                let b = self.un(Un::Extract(0), hw, rw - (lw - lo), hi);
                return self.concat(b, rw - (lw - lo), a, lw - lo);
            }
            (Un::Extract(lo), Node::Un(Un::Zext, iw, x)) => {
                if lo >= iw {
                    return Arg::C(0);
                }
                if lo + rw <= iw {
                    return self.un(Un::Extract(lo), iw, rw, x);
                }
                let p = self.un(Un::Extract(lo), iw, iw - lo, x);
                return self.un(Un::Zext, iw - lo, rw, p);
            }
            (Un::Extract(lo), Node::Bin(op @ (Op::And | Op::Or | Op::Xor), bw, x, y)) => {
                let p = self.un(Un::Extract(lo), bw, rw, x);
                let q = self.un(Un::Extract(lo), bw, rw, y);
                return self.bin(op, rw, p, q);
            }
            (Un::Extract(0), Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), bw, x, y)) => {
                let p = self.un(Un::Extract(0), bw, rw, x);
                let q = self.un(Un::Extract(0), bw, rw, y);
                return self.bin(op, rw, p, q);
            }
            (Un::Extract(lo), Node::Ite(c, x, y)) => {
                let p = self.un(Un::Extract(lo), w, rw, x);
                let q = self.un(Un::Extract(lo), w, rw, y);
                return self.ite(Arg::E(c), p, q, rw);
            }
            _ => {}
        }
        Arg::E(self.mk_node(Node::Un(u, w, a), rw))
    }
    pub fn concat(&mut self, hi: Arg, hw: u32, lo: Arg, lw: u32) -> Arg {
        let w = hw + lw;
        if let (Arg::C(x), Arg::C(y)) = (hi, lo) {
            return Arg::C((x << lw) | y);
        }
        if let Arg::C(0) = hi {
            return self.un(Un::Zext, lw, w, lo);
        }
        if w <= 64 {
            if let Some(s) = self.joint(&[hi, lo]) {
                let va = self.vals_of(hi, s);
                let vb = self.vals_of(lo, s);
                let vals: Vec<u64> =
                    va.iter().zip(&vb).map(|(x, y)| ((x << lw) | y) as u64).collect();
                return self.mk_tab(s, w, vals);
            }
        }
        if let (Arg::E(h), Arg::E(l)) = (hi, lo) {
            // extract(x, hi) ++ extract(x, lo), adjacent
            let hn = self.nodes[h as usize].clone();
            let ln = self.nodes[l as usize].clone();
            let hp = match hn {
                Node::Un(Un::Extract(o), iw, x) => Some((o, iw, x)),
                _ => None,
            };
            let lp = match ln {
                Node::Un(Un::Extract(o), iw, x) => Some((o, iw, x)),
                _ => None,
            };
            if let (Some((ho, iw, x)), Some((lo_, iw2, y))) = (hp, lp) {
                if x == y && iw == iw2 && ho == lo_ + lw {
                    return self.un(Un::Extract(lo_), iw, w, x);
                }
            }
        }
        Arg::E(self.mk_node(Node::Concat(hi, hw, lo, lw), w))
    }
    pub fn ite(&mut self, c: Arg, a: Arg, b: Arg, w: u32) -> Arg {
        let c = match c {
            Arg::C(0) => return b,
            Arg::C(_) => return a,
            Arg::E(e) => e,
        };
        if a == b {
            return a;
        }
        if w == 1 {
            if let (Arg::C(1), Arg::C(0)) = (a, b) {
                return Arg::E(c);
            }
            if let (Arg::C(0), Arg::C(1)) = (a, b) {
                return self.not(Arg::E(c));
            }
        }
        if w <= 64 {
            if let Some(s) = self.joint(&[Arg::E(c), a, b]) {
                let vc = self.vals_of(Arg::E(c), s);
                let va = self.vals_of(a, s);
                let vb = self.vals_of(b, s);
                let vals: Vec<u64> = (0..vc.len())
                    .map(|i| if vc[i] != 0 { va[i] as u64 } else { vb[i] as u64 })
                    .collect();
                return self.mk_tab(s, w, vals);
            }
        }
        if w == 1 {
            match (a, b) {
                (Arg::C(1), x) => return self.bin(Op::Or, 1, Arg::E(c), x),
                (Arg::C(0), x) => {
                    let n = self.not(Arg::E(c));
                    return self.bin(Op::And, 1, n, x);
                }
                (x, Arg::C(0)) => return self.bin(Op::And, 1, Arg::E(c), x),
                (x, Arg::C(1)) => {
                    let n = self.not(Arg::E(c));
                    return self.bin(Op::Or, 1, n, x);
                }
                _ => {}
            }
        }
        Arg::E(self.mk_node(Node::Ite(c, a, b), w))
    }

    /// Evaluate under a model: model[k] is the value of the k-th input byte.
    pub fn eval(&mut self, a: Arg, model: &[u8]) -> u128 {
        match a {
            Arg::C(c) => c,
            Arg::E(e) => {
                self.epoch = self.epoch.wrapping_add(1);
                if self.epoch == 0 {
                    self.eval_epoch.iter_mut().for_each(|x| *x = 0);
                    self.epoch = 1;
                }
                if self.eval_epoch.len() < self.nodes.len() {
                    self.eval_epoch.resize(self.nodes.len() + 1024, 0);
                    self.eval_val.resize(self.nodes.len() + 1024, 0);
                }
                self.ev(e, model)
            }
        }
    }
    fn ev_arg(&mut self, a: Arg, model: &[u8]) -> u128 {
        match a {
            Arg::C(c) => c,
            Arg::E(e) => self.ev(e, model),
        }
    }
    fn ev(&mut self, e: Ex, model: &[u8]) -> u128 {
        if self.eval_epoch[e as usize] == self.epoch {
            return self.eval_val[e as usize];
        }
        let n = self.nodes[e as usize].clone();
        let v = match n {
            Node::Tab { sym, tab } => {
                let si = &self.syms[sym as usize];
                let byte = model[si.k as usize];
                let dom = &self.doms[si.dom as usize];
                let idx = dom.binary_search(&byte).unwrap_or(0);
                self.tabs[tab as usize].vals[idx] as u128
            }
            Node::Bin(op, w, a, b) => {
                let x = self.ev_arg(a, model);
                let y = self.ev_arg(b, model);
                cbin(op, w, x, y)
            }
            Node::Un(u, w, a) => {
                let x = self.ev_arg(a, model);
                cun(u, w, self.width[e as usize], x)
            }
            Node::Ite(c, a, b) => {
                if self.ev(c, model) != 0 { self.ev_arg(a, model) } else { self.ev_arg(b, model) }
            }
            Node::Concat(h, _, l, lw) => {
                let x = self.ev_arg(h, model);
                let y = self.ev_arg(l, model);
                (x << lw) | y
            }
        };
        self.eval_epoch[e as usize] = self.epoch;
        self.eval_val[e as usize] = v;
        v
    }
}
