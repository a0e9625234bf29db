//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;

pub type DFunc = Func;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static DFunc,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub ip: u32,
    pub sp: u32,
    pub dest: u32,
    pub normal: u32,
}

#[derive(Clone, Default)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Space,
    pub nheap: u32,
    pub free: Vec<u32>,
    pub stack: Space,
    pub sp: u32,
    pub glob: Vec<(u32, Rc<Obj>)>,
    pub masks: Vec<Mask>,
    pub syms: Vec<u32>,
    pub coupled: Vec<bool>,
    pub cons: Vec<(Ex, bool)>,
    pub model: Vec<u8>,
    pub steps: u64,
    pub fuel: u64,
    pub fs: crate::intr::Fs,
}

pub enum Stop {
    Done,
    Assumed,
    Panic(String),
    Fail(String),
    Fuel,
    Unsupported(String),
    Yield,
}
pub type R<T> = Result<T, Stop>;

#[derive(Default, Clone, Debug)]
pub struct LabelStat {
    pub count: u64,
    pub symbolic: u64,
    pub model: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub label: String,
    pub model: Vec<u8>,
    pub trace: Vec<String>,
}
#[derive(Default)]
pub struct Results {
    pub paths: u64,
    pub assumed: u64,
    pub steps: u64,
    pub weight: f64,
    pub coupled_paths: u64,
    pub forks: u64,
    pub decided: u64,
    pub max_syms: u64,
    pub checks: BTreeMap<String, LabelStat>,
    pub reach: BTreeMap<String, LabelStat>,
    pub viol: Vec<Viol>,
    pub nviol: BTreeMap<String, u64>,
    pub incomplete: BTreeMap<String, u64>,
    pub samples: Vec<Vec<u8>>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum FKind {
    Defined,
    Builtin(crate::intr::B),
    Extern,
}
pub struct FnEnt {
    pub name: String,
    pub kind: FKind,
    pub body: Option<&'static DFunc>,
    pub used: bool,
}
pub struct GlobEnt {
    pub name: String,
    pub txt: &'static [u8],
    pub obj: Option<(Rc<Obj>, bool)>, // bool: constant
}

pub struct Eng {
    pub m: &'static Module<'static>,
    pub fns: Vec<FnEnt>,
    pub fn_ix: HashMap<String, u32>,
    pub globs: Vec<GlobEnt>,
    pub gl_ix: HashMap<String, u32>,
    pub ar: Arena,
    pub sol: Solver,
    pub tabq: HashMap<(u32, Mask, u32, bool), bool>,
    pub tabq_hits: u64,
    pub work: VecDeque<State>,
    pub st: State,
    pub res: Results,
    pub bfs: bool,
    pub forked: bool,
    pub params: Vec<u32>,
    pub max_viol: usize,
    pub label_ids: HashMap<u64, String>,
}

fn lanes_of(v: &Val) -> &Rc<Vec<Val>> {
    match v {
        Val::A(a) => a,
        _ => panic!("vector expected, got {v:?}"),
    }
}
pub fn zero_val(t: &Ty) -> Val {
    match t {
        Ty::Vec(n, e) | Ty::Arr(n, e) => Val::A(Rc::new(vec![zero_val(e); *n as usize])),
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(zero_val).collect())),
        t => if t.bits() > 64 { Val::W(Box::new(0)) } else { Val::I(0) },
    }
}

impl Eng {
    // ---------- constants and globals ----------
    pub fn gaddr(&mut self, name: &str) -> u64 {
        if let Some(i) = self.gl_ix.get(name) {
            return addr(ID_GLOBAL + *i, 0);
        }
        if let Some(i) = self.fn_ix.get(name) {
            return addr(ID_FUNC + *i, 0);
        }
        panic!("unknown global @{name}")
    }
    pub fn const_val(&mut self, c: &Const, t: &Ty) -> Val {
        match c {
            Const::Zero | Const::Undef => zero_val(t),
            Const::Agg(v) => {
                let r = v.iter().map(|(t, c)| self.const_val(c, t)).collect();
                Val::A(Rc::new(r))
            }
            Const::Splat(b) => {
                let x = self.const_val(&b.1, &b.0);
                let n = match t {
                    Ty::Vec(n, _) => *n,
                    _ => panic!("splat"),
                };
                Val::A(Rc::new(vec![x; n as usize]))
            }
            Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::I(*x as u64)).collect())),
            c => {
                let v = self.const_int(c);
                Val::of(Arg::C(v & wmask(t.bits())), t.bits())
            }
        }
    }
    fn const_int(&mut self, c: &Const) -> u128 {
        match c {
            Const::Int(v) => *v,
            Const::Zero | Const::Undef => 0,
            Const::Global(g) => self.gaddr(g) as u128,
            Const::Gep(t, b, idx) => {
                let mut a = self.const_int(b) as u64;
                let mut cur = t.clone();
                for (k, (it, c)) in idx.iter().enumerate() {
                    let v = self.const_int(c);
                    let w = it.bits();
                    let v = ((v << (128 - w)) as i128 >> (128 - w)) as i64;
                    if k == 0 {
                        a = a.wrapping_add((v as u64).wrapping_mul(cur.size()));
                    } else {
                        match &cur.clone() {
                            Ty::Struct(..) => {
                                let (o, t) = cur.field(v as u64);
                                a = a.wrapping_add(o);
                                cur = t;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                a = a.wrapping_add((v as u64).wrapping_mul(t.size()));
                                cur = (**t).clone();
                            }
                            t => panic!("const gep {t:?}"),
                        }
                    }
                }
                a as u128
            }
            Const::Cast(_, _, c, t) => {
                let v = self.const_int(c);
                v & wmask(t.bits())
            }
            Const::Bin(op, w, a, b) => {
                let x = self.const_int(a);
                let y = self.const_int(b);
                let o = match op.as_str() {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Xor,
                };
                cbin(o, *w, x, y)
            }
            c => panic!("scalar constant {c:?}"),
        }
    }
    fn init(&mut self, data: &mut [u8], t: &Ty, c: &Const) {
        match c {
            Const::Zero | Const::Undef => {}
            Const::Bytes(b) => data[..b.len()].copy_from_slice(b),
            Const::Agg(v) => {
                for (i, (ft, c)) in v.iter().enumerate() {
                    let (o, _) = t.field(i as u64);
                    let n = ft.size() as usize;
                    self.init(&mut data[o as usize..o as usize + n], ft, c);
                }
            }
            Const::Splat(b) => {
                if let Ty::Vec(n, e) = t {
                    let s = e.size() as usize;
                    for i in 0..*n as usize {
                        self.init(&mut data[i * s..(i + 1) * s], e, &b.1);
                    }
                }
            }
            c => {
                let v = self.const_int(c);
                let n = t.store_size() as usize;
                data[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
    fn glob_load(&mut self, i: u32) {
        if self.globs[i as usize].obj.is_some() {
            return;
        }
        let txt = self.globs[i as usize].txt;
        let (t, c, k) = self.m.parse_global(txt);
        let n = match t {
            Ty::Other => 0,
            _ => t.size() as usize,
        };
        let mut data = vec![0u8; n.max(if c.is_none() { 8 } else { 0 })];
        if let Some(c) = c {
            self.init(&mut data[..n], &t, &c);
        }
        self.globs[i as usize].obj = Some((Rc::new(Obj { data, ov: None }), k));
    }
    pub fn func(&mut self, i: u32) -> &'static DFunc {
        if let Some(f) = self.fns[i as usize].body {
            self.fns[i as usize].used = true;
            return f;
        }
        let name = self.fns[i as usize].name.clone();
        let mut f = self.m.parse_func(&name);
        f.id = i;
        let mut consts = Vec::new();
        let blocks = std::mem::take(&mut f.blocks);
        let blocks: Vec<Block> = blocks
            .into_iter()
            .map(|mut b| {
                let mut fix = |me: &mut Eng, o: &mut Opd| {
                    if let Opd::K(c, t) = o {
                        let v = me.const_val(c, t);
                        consts.push(v);
                        *o = Opd::C(consts.len() as u32 - 1);
                    }
                };
                for p in &mut b.phis {
                    for (o, _) in &mut p.inc {
                        fix(self, o);
                    }
                }
                for ins in &mut b.insts {
                    if let Inst::Call { callee, .. } = ins {
                        if let Callee::Name(n) = callee {
                            let n = n.clone();
                            *callee = Callee::Fn(*self.fn_ix.get(&n).unwrap_or_else(|| panic!("callee {n}")));
                        }
                    }
                    ins.opds(&mut |o| fix(self, o));
                }
                b
            })
            .collect();
        f.blocks = blocks;
        f.consts = consts;
        let f: &'static DFunc = Box::leak(Box::new(f));
        self.fns[i as usize].body = Some(f);
        self.fns[i as usize].used = true;
        f
    }

    // ---------- memory ----------
    pub fn obj(&mut self, id: u32) -> Option<&Obj> {
        if id >= ID_FUNC {
            return None;
        }
        if id >= ID_GLOBAL {
            let i = id - ID_GLOBAL;
            if let Ok(k) = self.st.glob.binary_search_by_key(&i, |x| x.0) {
                return Some(&self.st.glob[k].1);
            }
            if i as usize >= self.globs.len() {
                return None;
            }
            self.glob_load(i);
            return self.globs[i as usize].obj.as_ref().map(|o| &*o.0);
        }
        if id >= ID_STACK {
            let i = id - ID_STACK;
            if i >= self.st.sp {
                return None;
            }
            return self.st.stack.get(i);
        }
        self.st.heap.get(id)
    }
    pub fn obj_mut(&mut self, id: u32) -> Option<&mut Obj> {
        if id >= ID_FUNC {
            return None;
        }
        if id >= ID_GLOBAL {
            let i = id - ID_GLOBAL;
            match self.st.glob.binary_search_by_key(&i, |x| x.0) {
                Ok(k) => return Some(Rc::make_mut(&mut self.st.glob[k].1)),
                Err(k) => {
                    if i as usize >= self.globs.len() {
                        return None;
                    }
                    self.glob_load(i);
                    let o = self.globs[i as usize].obj.as_ref().unwrap();
                    if o.1 {
                        return None;
                    }
                    let o = o.0.clone();
                    self.st.glob.insert(k, (i, o));
                    return Some(Rc::make_mut(&mut self.st.glob[k].1));
                }
            }
        }
        if id >= ID_STACK {
            let i = id - ID_STACK;
            if i >= self.st.sp {
                return None;
            }
            return self.st.stack.get_mut(i);
        }
        self.st.heap.get_mut(id)
    }
    fn bad(&self, what: &str, a: u64, n: u64) -> Stop {
        Stop::Unsupported(format!("memory: {what} of {n} bytes at {a:#x}"))
    }
    pub fn read_bytes(&mut self, a: u64, n: u64) -> R<(Vec<u8>, Option<Vec<Ob>>)> {
        if n == 0 {
            return Ok((vec![], None));
        }
        let (id, off) = ((a >> 32) as u32, a as u32 as usize);
        match self.obj(id) {
            Some(o) if off as u64 + n <= o.data.len() as u64 => {
                let n = n as usize;
                let d = o.data[off..off + n].to_vec();
                let ov = match &o.ov {
                    Some(v) if v[off..off + n].iter().any(|x| x.e != NONE) => Some(v[off..off + n].to_vec()),
                    _ => None,
                };
                Ok((d, ov))
            }
            _ => Err(self.bad("read", a, n)),
        }
    }
    pub fn write_bytes(&mut self, a: u64, d: &[u8], ov: Option<&[Ob]>) -> R<()> {
        if d.is_empty() {
            return Ok(());
        }
        let (id, off) = ((a >> 32) as u32, a as u32 as usize);
        match self.obj_mut(id) {
            Some(o) if off + d.len() <= o.data.len() => {
                o.set_conc(off, d);
                if let Some(v) = ov {
                    if o.ov.is_none() {
                        o.ov = Some(vec![CONC; o.data.len()]);
                    }
                    o.ov.as_mut().unwrap()[off..off + d.len()].copy_from_slice(v);
                }
                Ok(())
            }
            _ => Err(self.bad("write", a, d.len() as u64)),
        }
    }
    /// The expression of one byte given its overlay entry.
    pub fn ob_arg(&mut self, d: u8, o: Ob) -> Arg {
        if o.e == NONE {
            return Arg::C(d as u128);
        }
        let w = self.ar.width[o.e as usize];
        self.ar.un(Un::Extract(o.i * 8), w, 8, Arg::E(o.e))
    }
    pub fn byte_args(&mut self, a: u64, n: u64) -> R<Vec<Arg>> {
        let (d, ov) = self.read_bytes(a, n)?;
        Ok(match ov {
            None => d.iter().map(|x| Arg::C(*x as u128)).collect(),
            Some(v) => d.iter().zip(&v).map(|(x, o)| self.ob_arg(*x, *o)).collect(),
        })
    }
    fn load_int(&mut self, a: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = ((a >> 32) as u32, a as u32 as usize);
        let e = match self.obj(id) {
            Some(o) if off + n <= o.data.len() => {
                if o.is_conc(off, n) {
                    if w <= 64 {
                        let mut b = [0u8; 8];
                        b[..n].copy_from_slice(&o.data[off..off + n]);
                        let v = u64::from_le_bytes(b);
                        return Ok(Val::I(if w < 64 { v & ((1u64 << w) - 1) } else { v }));
                    }
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(&o.data[off..off + n]);
                    return Ok(Val::W(Box::new(u128::from_le_bytes(b) & wmask(w))));
                }
                let d = o.data[off..off + n].to_vec();
                let v = o.ov.as_ref().unwrap()[off..off + n].to_vec();
                (d, v)
            }
            _ => return Err(self.bad("load", a, n as u64)),
        };
        let (d, v) = e;
        if v[0].e != NONE && self.ar.width[v[0].e as usize] == 8 * n as u32 && v.iter().enumerate().all(|(i, o)| o.e == v[0].e && o.i == i as u32) {
            let r = self.ar.un(Un::Extract(0), 8 * n as u32, w, Arg::E(v[0].e));
            return Ok(Val::of(r, w));
        }
        let mut acc = self.ob_arg(d[n - 1], v[n - 1]);
        let mut aw = 8;
        for i in (0..n - 1).rev() {
            let b = self.ob_arg(d[i], v[i]);
            acc = self.ar.concat(acc, aw, b, 8);
            aw += 8;
        }
        if w < aw {
            acc = self.ar.un(Un::Extract(0), aw, w, acc);
        }
        Ok(Val::of(acc, w))
    }
    pub fn load(&mut self, a: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(w) | Ty::Fp(w) => self.load_int(a, *w),
            Ty::Ptr => self.load_int(a, 64),
            Ty::Vec(n, e) if e.bits() % 8 != 0 => {
                let w = *n as u32 * e.bits();
                let v = self.load_int(a, w)?;
                Ok(self.split_bits(v, w, e.bits()))
            }
            Ty::Vec(n, e) | Ty::Arr(n, e) => {
                let s = e.size();
                let mut r = Vec::new();
                for i in 0..*n {
                    r.push(self.load(a + i * s, e)?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            Ty::Struct(f, _) => {
                let mut r = Vec::new();
                for i in 0..f.len() as u64 {
                    let (o, ft) = t.field(i);
                    r.push(self.load(a + o, &ft)?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            t => panic!("load {t:?}"),
        }
    }
    pub fn store(&mut self, a: u64, t: &Ty, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Vec(n, e), _) if e.bits() % 8 != 0 => {
                let w = *n as u32 * e.bits();
                let x = self.join_bits(v, e.bits());
                self.store(a, &Ty::Int(w), &Val::of(x, w))
            }
            (Ty::Vec(_, e) | Ty::Arr(_, e), Val::A(xs)) => {
                let s = e.size();
                for (i, x) in xs.iter().enumerate() {
                    self.store(a + i as u64 * s, e, x)?;
                }
                Ok(())
            }
            (Ty::Struct(..), Val::A(xs)) => {
                for (i, x) in xs.iter().enumerate() {
                    let (o, ft) = t.field(i as u64);
                    self.store(a + o, &ft, x)?;
                }
                Ok(())
            }
            (_, Val::I(x)) => {
                let n = t.store_size() as usize;
                let (id, off) = ((a >> 32) as u32, a as u32 as usize);
                match self.obj_mut(id) {
                    Some(o) if off + n <= o.data.len() => {
                        if n <= 8 {
                            o.set_conc(off, &x.to_le_bytes()[..n]);
                        } else {
                            o.set_conc(off, &(*x as u128).to_le_bytes()[..n]);
                        }
                        Ok(())
                    }
                    _ => Err(self.bad("store", a, n as u64)),
                }
            }
            (_, Val::W(x)) => {
                let n = t.store_size() as usize;
                let b = x.to_le_bytes();
                self.write_bytes(a, &b[..n], None)
            }
            (_, Val::S(e)) => {
                let n = t.store_size() as usize;
                let w = t.bits();
                let mut e = *e;
                if w != 8 * n as u32 {
                    match self.ar.un(Un::Zext, w, 8 * n as u32, Arg::E(e)) {
                        Arg::E(x) => e = x,
                        Arg::C(_) => unreachable!(),
                    }
                }
                let ov: Vec<Ob> = (0..n as u32).map(|i| Ob { e, i }).collect();
                self.write_bytes(a, &[0u8; 16][..n], Some(&ov))
            }
            (t, v) => panic!("store {t:?} {v:?}"),
        }
    }
    pub fn split_bits(&mut self, v: Val, w: u32, ew: u32) -> Val {
        let n = w / ew;
        let mut r = Vec::new();
        for i in 0..n {
            let x = self.ar.un(Un::Extract(i * ew), w, ew, v.arg());
            r.push(Val::of(x, ew));
        }
        Val::A(Rc::new(r))
    }
    pub fn join_bits(&mut self, v: &Val, ew: u32) -> Arg {
        let xs = lanes_of(v).clone();
        let mut acc = xs[xs.len() - 1].arg();
        let mut aw = ew;
        for x in xs[..xs.len() - 1].iter().rev() {
            acc = self.ar.concat(acc, aw, x.arg(), ew);
            aw += ew;
        }
        acc
    }
    pub fn malloc(&mut self, n: u64) -> u64 {
        let id = match self.st.free.pop() {
            Some(i) => i,
            None => {
                self.st.nheap += 1;
                self.st.nheap
            }
        };
        self.st.heap.fresh(id, n as usize);
        addr(id, 0)
    }
    pub fn free(&mut self, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let id = (a >> 32) as u32;
        if a as u32 != 0 || id >= ID_STACK || self.st.heap.get(id).is_none() {
            return Err(self.bad("free", a, 0));
        }
        *self.st.heap.slot(id) = None;
        self.st.free.push(id);
        Ok(())
    }
    pub fn alloca(&mut self, n: u64) -> u64 {
        let i = self.st.sp;
        self.st.sp += 1;
        self.st.stack.fresh(i, n as usize);
        addr(ID_STACK + i, 0)
    }

    // ---------- path conditions ----------
    fn tab_of(&self, e: Ex) -> Option<(u32, u32, u32)> {
        match self.ar.nodes[e as usize] {
            Node::Tab { sym, tab } => Some((sym, self.ar.syms[sym as usize].k, tab)),
            _ => None,
        }
    }
    fn pol_mask(&self, k: u32, tab: u32, pol: bool) -> Mask {
        let t = &self.ar.tabs[tab as usize].truth;
        let m = &self.st.masks[k as usize];
        if pol { mask_and(m, t) } else { mask_andnot(m, t) }
    }
    /// Z3's verdict on "the byte, restricted to `mask`, makes the table true (pol)".
    fn tab_query(&mut self, sym: u32, mask: Mask, tab: u32, pol: bool, expect: bool) {
        let dom = self.ar.syms[sym as usize].dom;
        let key = (dom, mask, tab, pol);
        if let Some(v) = self.tabq.get(&key) {
            self.tabq_hits += 1;
            assert_eq!(*v, expect);
            return;
        }
        let (g, _) = self.ar.sym(1_000_000, dom);
        let Arg::E(e) = self.ar.tab_arg(g, tab) else { unreachable!() };
        let (v, _) = self.sol.check_nocache(&self.ar, &[(g, mask)], &[(e, pol)]);
        match v {
            Verdict::Unknown => *self.res.incomplete.entry("solver unknown".into()).or_default() += 1,
            v => assert_eq!(v == Verdict::Sat, expect, "engine and Z3 disagree on a byte condition"),
        }
        self.tabq.insert(key, expect);
    }
    fn slice(&self, e: Ex) -> (Vec<u32>, Vec<(Ex, bool)>) {
        let mut syms: Vec<u32> = self.ar.sup[e as usize].to_vec();
        let mut cons: Vec<(Ex, bool)> = Vec::new();
        let mut taken = vec![false; self.st.cons.len()];
        let mut grew = true;
        while grew {
            grew = false;
            for (i, c) in self.st.cons.iter().enumerate() {
                if taken[i] {
                    continue;
                }
                let s = &self.ar.sup[c.0 as usize];
                if s.iter().any(|x| syms.contains(x)) {
                    taken[i] = true;
                    cons.push(*c);
                    for x in s.iter() {
                        if !syms.contains(x) {
                            syms.push(*x);
                            grew = true;
                        }
                    }
                }
            }
        }
        syms.sort_unstable();
        (syms, cons)
    }
    /// Is the path condition with (e == pol) satisfiable?  Returns a model.
    pub fn feasible(&mut self, e: Ex, pol: bool) -> Option<Vec<u8>> {
        if (self.ar.eval(Arg::E(e), &self.st.model) != 0) == pol && self.tab_of(e).is_none() {
            return Some(self.st.model.clone());
        }
        if let Some((sym, k, tab)) = self.tab_of(e) {
            let m = self.pol_mask(k, tab, pol);
            let ok = !mask_empty(&m);
            self.tab_query(sym, self.st.masks[k as usize], tab, pol, ok);
            if !ok {
                return None;
            }
            if (self.ar.eval(Arg::E(e), &self.st.model) != 0) == pol {
                return Some(self.st.model.clone());
            }
            let dom = self.ar.doms[self.ar.syms[sym as usize].dom as usize].clone();
            let mut model = self.st.model.clone();
            if !self.st.coupled[k as usize] {
                model[k as usize] = dom[mask_first(&m)];
                return Some(model);
            }
            let mut tries = 0;
            for i in mask_iter(m) {
                model[k as usize] = dom[i];
                let cons: Vec<(Ex, bool)> = self.st.cons.iter().filter(|c| self.ar.sup[c.0 as usize].contains(&sym)).copied().collect();
                if cons.iter().all(|c| (self.ar.eval(Arg::E(c.0), &model) != 0) == c.1) {
                    return Some(model);
                }
                tries += 1;
                if tries >= 8 {
                    break;
                }
            }
        }
        let (syms, mut cons) = self.slice(e);
        cons.push((e, pol));
        let masks: Vec<(u32, Mask)> = syms.iter().map(|g| (*g, self.st.masks[self.ar.syms[*g as usize].k as usize])).collect();
        let (v, vals) = self.sol.check(&self.ar, &masks, &cons);
        match v {
            Verdict::Unsat => None,
            Verdict::Unknown => {
                *self.res.incomplete.entry("solver unknown".into()).or_default() += 1;
                None
            }
            Verdict::Sat => {
                let mut model = self.st.model.clone();
                for (g, b) in vals {
                    model[self.ar.syms[g as usize].k as usize] = b;
                }
                debug_assert!((self.ar.eval(Arg::E(e), &model) != 0) == pol);
                Some(model)
            }
        }
    }
    fn constrain(ar: &mut Arena, st: &mut State, e: Ex, pol: bool) {
        match ar.nodes[e as usize].clone() {
            Node::Tab { sym, tab } => {
                let k = ar.syms[sym as usize].k as usize;
                let t = ar.tabs[tab as usize].truth;
                st.masks[k] = if pol { mask_and(&st.masks[k], &t) } else { mask_andnot(&st.masks[k], &t) };
                assert!(!mask_empty(&st.masks[k]));
            }
            Node::Bin(Op::And, 1, Arg::E(a), Arg::E(b)) if pol => {
                Self::constrain(ar, st, a, true);
                Self::constrain(ar, st, b, true);
            }
            Node::Bin(Op::Or, 1, Arg::E(a), Arg::E(b)) if !pol => {
                Self::constrain(ar, st, a, false);
                Self::constrain(ar, st, b, false);
            }
            Node::Bin(Op::Xor, 1, Arg::E(a), Arg::C(1)) => Self::constrain(ar, st, a, !pol),
            _ => {
                if st.cons.contains(&(e, pol)) {
                    return;
                }
                for g in ar.sup[e as usize].iter() {
                    st.coupled[ar.syms[*g as usize].k as usize] = true;
                }
                st.cons.push((e, pol));
            }
        }
    }
    /// Direction of a condition on this path; the other feasible direction is
    /// queued as a copy that re-executes the current instruction.
    pub fn cond(&mut self, a: Arg) -> R<bool> {
        let e = match a {
            Arg::C(c) => return Ok(c != 0),
            Arg::E(e) => e,
        };
        let dir = self.ar.eval(a, &self.st.model) != 0;
        if self.tab_of(e).is_none() && self.st.cons.contains(&(e, dir)) {
            return Ok(dir);
        }
        let other = self.feasible(e, !dir);
        if let Some(m) = other {
            self.res.forks += 1;
            let mut s2 = self.st.clone();
            Self::constrain(&mut self.ar, &mut s2, e, !dir);
            s2.model = m;
            self.work.push_back(s2);
            Self::constrain(&mut self.ar, &mut self.st, e, dir);
            self.forked = true;
        } else {
            self.res.decided += 1;
        }
        Ok(dir)
    }
    pub fn conc_arg(&mut self, a: Arg, w: u32) -> R<u128> {
        match a {
            Arg::C(c) => Ok(c),
            Arg::E(_) => {
                let v = self.ar.eval(a, &self.st.model);
                let c = self.ar.bin(Op::Eq, w, a, Arg::C(v));
                let d = self.cond(c)?;
                assert!(d);
                Ok(v)
            }
        }
    }
    pub fn conc(&mut self, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::S(e) => {
                let w = self.ar.width[*e as usize];
                Ok(self.conc_arg(Arg::E(*e), w)? as u64)
            }
            v => panic!("conc {v:?}"),
        }
    }
    pub fn new_sym(&mut self, vals: Vec<u8>) -> Val {
        let k = self.st.masks.len() as u32;
        if vals.len() == 1 {
            // a constant input still occupies a slot of the model
            let d = self.ar.dom(vals.clone());
            self.ar.sym(k, d);
            let (g, _) = self.ar.sym(k, d);
            self.st.masks.push(self.ar.full_mask(d));
            self.st.syms.push(g);
            self.st.coupled.push(false);
            self.st.model.push(vals[0]);
            return Val::I(vals[0] as u64);
        }
        let first = vals[0];
        let d = self.ar.dom(vals);
        let (g, a) = self.ar.sym(k, d);
        self.st.masks.push(self.ar.full_mask(d));
        self.st.syms.push(g);
        self.st.coupled.push(false);
        self.st.model.push(first);
        Val::of(a, 8)
    }
    pub fn trace(&self) -> Vec<String> {
        self.st.frames.iter().rev().take(14).map(|f| crate::demangle(&f.f.name)).collect()
    }
    fn weight(&self) -> Option<f64> {
        if !self.st.cons.is_empty() {
            return None;
        }
        let mut w = 1.0;
        for (k, m) in self.st.masks.iter().enumerate() {
            let n: u32 = m.iter().map(|x| x.count_ones()).sum();
            let d = self.ar.doms[self.ar.syms[self.st.syms[k] as usize].dom as usize].len();
            w *= n as f64 / d as f64;
        }
        Some(w)
    }
    pub fn model_ok(&mut self) -> bool {
        let st = self.st.clone();
        for (k, m) in st.masks.iter().enumerate() {
            let dom = &self.ar.doms[self.ar.syms[st.syms[k] as usize].dom as usize];
            match dom.binary_search(&st.model[k]) {
                Ok(i) if mask_has(m, i) => {}
                _ => return false,
            }
        }
        st.cons.iter().all(|c| (self.ar.eval(Arg::E(c.0), &st.model) != 0) == c.1)
    }
    pub fn violation(&mut self, kind: &str, label: &str) {
        *self.res.nviol.entry(label.to_string()).or_default() += 1;
        let have = self.res.viol.iter().filter(|v| v.label == label).count();
        if have < self.max_viol {
            if !self.model_ok() {
                *self.res.incomplete.entry("model self-check failed".into()).or_default() += 1;
                return;
            }
            let trace = self.trace();
            self.res.viol.push(Viol { kind: kind.into(), label: label.into(), model: self.st.model.clone(), trace });
        }
    }
    /// Run the current state until its path ends (or, breadth first, until it forks).
    pub fn run_current(&mut self) -> bool {
        let r = self.run_loop();
        let stop = match r {
            Ok(()) => return false,
            Err(s) => s,
        };
        if let Stop::Yield = stop {
            return true;
        }
        self.res.steps += self.st.steps;
        self.res.max_syms = self.res.max_syms.max(self.st.masks.len() as u64);
        match self.weight() {
            Some(w) => self.res.weight += w,
            None => self.res.coupled_paths += 1,
        }
        match stop {
            Stop::Done => {
                self.res.paths += 1;
                if self.res.samples.len() < 3 || (self.res.paths.is_power_of_two() && self.res.samples.len() < 12) {
                    self.res.samples.push(self.st.model.clone());
                }
            }
            Stop::Assumed => self.res.assumed += 1,
            Stop::Panic(m) => {
                self.res.paths += 1;
                let t = self.trace();
                let site = t.iter().find(|n| !n.starts_with("core") && !n.starts_with("alloc") && !n.starts_with("std")).cloned().unwrap_or_default();
                let _ = m;
                self.violation("panic", &format!("panic:{site}"));
            }
            Stop::Fail(l) => {
                self.res.paths += 1;
                self.violation("check", &l);
            }
            Stop::Fuel => {
                self.res.paths += 1;
                self.violation("hang", "hang");
            }
            Stop::Unsupported(m) => {
                let t = self.trace();
                let m = format!("{m} in {}", t.join(" < "));
                *self.res.incomplete.entry(m).or_default() += 1;
            }
            Stop::Yield => unreachable!(),
        }
        false
    }

    fn get(fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(i) => fr.regs[*i as usize].clone(),
            Opd::C(i) => fr.f.consts[*i as usize].clone(),
            Opd::K(..) => unreachable!(),
        }
    }
    pub fn enter(&mut self, fid: u32, args: Vec<Val>, dest: u32, normal: u32) -> R<()> {
        if self.st.frames.len() > 2000 {
            return Err(Stop::Unsupported("call depth".into()));
        }
        let f = self.func(fid);
        let sp = self.st.sp;
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i >= f.params.len() {
                break;
            }
            let mut a = a;
            if let Some(n) = f.byval[i] {
                let src = self.conc(&a)?;
                let (d, ov) = self.read_bytes(src, n)?;
                let p = self.alloca(n);
                self.write_bytes(p, &d, ov.as_deref())?;
                a = Val::I(p);
            }
            regs[f.params[i] as usize] = a;
        }
        self.st.frames.push(Rc::new(Frame { f, regs, blk: 0, ip: 0, sp, dest, normal }));
        Ok(())
    }
    fn jump(fr: &mut Frame, to: u32) {
        let b = &fr.f.blocks[to as usize];
        match b.phis.len() {
            0 => {}
            1 => {
                let p = &b.phis[0];
                let from = fr.blk;
                let o = p.inc.iter().find(|x| x.1 == from).map(|x| &x.0).expect("phi edge");
                let v = Self::get(fr, o);
                fr.regs[p.d as usize] = v;
            }
            _ => {
                let from = fr.blk;
                let mut tmp: smallbuf::Buf = smallbuf::Buf::new();
                for p in &b.phis {
                    let o = p.inc.iter().find(|x| x.1 == from).map(|x| &x.0).expect("phi edge");
                    tmp.push(Self::get(fr, o));
                }
                for (p, v) in b.phis.iter().zip(tmp) {
                    fr.regs[p.d as usize] = v;
                }
            }
        }
        fr.blk = to;
        fr.ip = 0;
    }
    fn top(&mut self) -> &mut Frame {
        Rc::make_mut(self.st.frames.last_mut().unwrap())
    }
    pub fn set(&mut self, d: u32, v: Val) {
        if d != u32::MAX {
            self.top().regs[d as usize] = v;
        }
    }
    /// Finish a call instruction in the (now top) caller frame.
    pub fn after_call(&mut self, normal: u32) {
        let fr = self.top();
        if normal == u32::MAX {
            fr.ip += 1;
        } else {
            Self::jump(fr, normal);
        }
    }
    fn bin_val(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if w <= 64 {
                return Val::I(bin64(op, w, *x, *y));
            }
        }
        let rw = if is_cmp(op) { 1 } else { w };
        let r = self.ar.bin(op, w, a.arg(), b.arg());
        Val::of(r, rw)
    }
    fn ite_val(&mut self, c: Arg, a: &Val, b: &Val, w: u32) -> Val {
        let r = self.ar.ite(c, a.arg(), b.arg(), w);
        Val::of(r, w)
    }
    fn tab_load(&mut self, e: Ex, w: u32) -> Option<Val> {
        let (sym, k, tab) = self.tab_of(e)?;
        let m = self.st.masks[k as usize];
        let addrs = self.ar.tabs[tab as usize].vals.clone();
        let mut vals = vec![0u64; addrs.len()];
        let mut first = None;
        for i in mask_iter(m) {
            if i >= addrs.len() {
                break;
            }
            match self.load_int(addrs[i], w) {
                Ok(Val::I(v)) => {
                    vals[i] = v;
                    if first.is_none() {
                        first = Some(v);
                    }
                }
                _ => return None,
            }
        }
        let f = first?;
        for i in 0..vals.len() {
            if !mask_has(&m, i) {
                vals[i] = f;
            }
        }
        let r = self.ar.mk_tab(sym, w, vals);
        Some(Val::of(r, w))
    }
    fn bitcast(&mut self, v: Val, from: &Ty, to: &Ty) -> Val {
        let (fw, fl) = shape(from);
        let (tw, tl) = shape(to);
        if fl == tl {
            return v;
        }
        let total = if fl == 0 { fw } else { fw * fl };
        let x = if fl == 0 { v.arg() } else { self.join_bits(&v, fw) };
        if tl == 0 {
            Val::of(x, total)
        } else {
            self.split_bits(Val::of(x, total), total, tw)
        }
    }
    fn cast1(&mut self, kind: CastK, fw: u32, tw: u32, v: &Val) -> Val {
        match (kind, v) {
            (CastK::Zext, Val::I(x)) if tw <= 64 => Val::I(*x),
            (CastK::Trunc, Val::I(x)) => Val::I(if tw < 64 { x & ((1u64 << tw) - 1) } else { *x }),
            _ => {
                let u = match kind {
                    CastK::Zext => Un::Zext,
                    CastK::Sext => Un::Sext,
                    _ => Un::Extract(0),
                };
                let r = self.ar.un(u, fw, tw, v.arg());
                Val::of(r, tw)
            }
        }
    }

    fn run_loop(&mut self) -> R<()> {
        loop {
            if self.bfs && self.forked {
                self.forked = false;
                return Err(Stop::Yield);
            }
            let fr: &Frame = self.st.frames.last().unwrap();
            let f = fr.f;
            let ins: &'static Inst = &f.blocks[fr.blk as usize].insts[fr.ip as usize];
            self.st.steps += 1;
            if self.st.steps > self.st.fuel {
                return Err(Stop::Fuel);
            }
            match ins {
                Inst::Bin { op, w, lanes, d, a, b } => {
                    let fr = Rc::make_mut(self.st.frames.last_mut().unwrap());
                    let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                    if let (Val::I(p), Val::I(q)) = (&x, &y) {
                        if *w <= 64 {
                            fr.regs[*d as usize] = Val::I(bin64(*op, *w, *p, *q));
                            fr.ip += 1;
                            continue;
                        }
                    }
                    let r = if *lanes == 0 {
                        self.bin_val(*op, *w, &x, &y)
                    } else {
                        let (p, q) = (lanes_of(&x).clone(), lanes_of(&y).clone());
                        Val::A(Rc::new(p.iter().zip(q.iter()).map(|(p, q)| self.bin_val(*op, *w, p, q)).collect()))
                    };
                    self.fin(*d, r);
                }
                Inst::Icmp { op, neg, w, lanes, d, a, b } => {
                    let fr = Rc::make_mut(self.st.frames.last_mut().unwrap());
                    let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                    if let (Val::I(p), Val::I(q)) = (&x, &y) {
                        let r = bin64(*op, *w, *p, *q) ^ *neg as u64;
                        fr.regs[*d as usize] = Val::I(r);
                        fr.ip += 1;
                        continue;
                    }
                    let one = |me: &mut Eng, x: &Val, y: &Val| {
                        let r = me.ar.bin(*op, *w, x.arg(), y.arg());
                        let r = if *neg { me.ar.not(r) } else { r };
                        Val::of(r, 1)
                    };
                    let r = if *lanes == 0 {
                        one(self, &x, &y)
                    } else {
                        let (p, q) = (lanes_of(&x).clone(), lanes_of(&y).clone());
                        Val::A(Rc::new(p.iter().zip(q.iter()).map(|(p, q)| one(self, p, q)).collect()))
                    };
                    self.fin(*d, r);
                }
                Inst::Load { d, ty, p } => {
                    let pv = Self::get(fr, p);
                    let a = match &pv {
                        Val::I(a) => *a,
                        Val::S(e) => {
                            if matches!(ty, Ty::Int(w) if *w <= 64) || *ty == Ty::Ptr {
                                if let Some(v) = self.tab_load(*e, ty.bits()) {
                                    self.fin(*d, v);
                                    continue;
                                }
                            }
                            self.conc(&pv)?
                        }
                        _ => panic!(),
                    };
                    let v = self.load(a, ty)?;
                    self.fin(*d, v);
                }
                Inst::Store { ty, v, p } => {
                    let pv = Self::get(fr, p);
                    let vv = Self::get(fr, v);
                    let a = self.conc(&pv)?;
                    self.store(a, ty, &vv)?;
                    self.top().ip += 1;
                }
                Inst::Gep { d, base, off, idx, vec } => {
                    if *vec {
                        return Err(Stop::Unsupported("vector gep".into()));
                    }
                    let b = Self::get(fr, base);
                    if let Val::I(x) = b {
                        let mut x = x.wrapping_add(*off as u64);
                        let mut ok = true;
                        for (o, w, s) in idx {
                            match Self::get(fr, o) {
                                Val::I(v) => {
                                    let v = if *w < 64 { ((v << (64 - w)) as i64 >> (64 - w)) as u64 } else { v };
                                    x = x.wrapping_add(v.wrapping_mul(*s));
                                }
                                _ => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        if ok {
                            self.fin(*d, Val::I(x));
                            continue;
                        }
                    }
                    let fr: &Frame = self.st.frames.last().unwrap();
                    let vals: Vec<(Val, u32, u64)> = idx.iter().map(|(o, w, s)| (Self::get(fr, o), *w, *s)).collect();
                    let mut acc = self.ar.bin(Op::Add, 64, b.arg(), Arg::C(*off as u64 as u128));
                    for (v, w, s) in vals {
                        let x = if w < 64 { self.ar.un(Un::Sext, w, 64, v.arg()) } else { v.arg() };
                        let x = self.ar.bin(Op::Mul, 64, x, Arg::C(s as u128));
                        acc = self.ar.bin(Op::Add, 64, acc, x);
                    }
                    self.fin(*d, Val::of(acc, 64));
                }
                Inst::Alloca { d, size, n } => {
                    let nv = Self::get(fr, n);
                    let n = self.conc(&nv)?;
                    let a = self.alloca(size * n);
                    self.fin(*d, Val::I(a));
                }
                Inst::Cast { kind, from, to, d, a } => {
                    let v = Self::get(fr, a);
                    let r = match kind {
                        CastK::Same => self.bitcast(v, from, to),
                        CastK::Fp(k) => {
                            // One path per value.
                            let v = if let Val::S(_) = v { Val::I(self.conc(&v)?) } else { v };
                            fp_cast(k, from.bits(), to.bits(), &v)?
                        }
                        k => {
                            let (fw, fl) = shape(from);
                            let (tw, _) = shape(to);
                            if fl == 0 {
                                self.cast1(*k, fw, tw, &v)
                            } else {
                                let xs = lanes_of(&v).clone();
                                Val::A(Rc::new(xs.iter().map(|x| self.cast1(*k, fw, tw, x)).collect()))
                            }
                        }
                    };
                    self.fin(*d, r);
                }
                Inst::Select { d, cty, ty, c, a, b } => {
                    let cv = Self::get(fr, c);
                    let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                    let r = match &cv {
                        Val::I(k) => if *k != 0 { x } else { y },
                        Val::S(_) if matches!(ty, Ty::Int(w) if *w <= 128) => self.ite_val(cv.arg(), &x, &y, ty.bits()),
                        Val::S(_) => if self.cond(cv.arg())? { x } else { y },
                        Val::A(cs) => {
                            let _ = cty;
                            let (ew, _) = shape(ty);
                            let (p, q) = (lanes_of(&x).clone(), lanes_of(&y).clone());
                            let mut r = Vec::new();
                            for (i, c) in cs.iter().enumerate() {
                                r.push(self.ite_val(c.arg(), &p[i], &q[i], ew));
                            }
                            Val::A(Rc::new(r))
                        }
                        _ => panic!(),
                    };
                    self.fin(*d, r);
                }
                Inst::Br(l) => {
                    let l = *l;
                    Self::jump(self.top(), l);
                }
                Inst::CondBr(c, t, e) => {
                    let v = Self::get(fr, c);
                    let k = match v {
                        Val::I(x) => x != 0,
                        v => self.cond(v.arg())?,
                    };
                    Self::jump(self.top(), if k { *t } else { *e });
                }
                Inst::Switch { w, v, def, cases } => {
                    let x = Self::get(fr, v);
                    let to = match x {
                        Val::I(x) => cases.iter().find(|c| c.0 == x as u128).map(|c| c.1).unwrap_or(*def),
                        x => {
                            let cur = self.ar.eval(x.arg(), &self.st.model);
                            let to = cases.iter().find(|c| c.0 == cur).map(|c| c.1).unwrap_or(*def);
                            let hit = cases.iter().any(|c| c.0 == cur);
                            // condition: the value selects this target
                            let mut e = Arg::C(0);
                            for (k, l) in cases {
                                if !hit || *l == to {
                                    let q = self.ar.bin(Op::Eq, *w, x.arg(), Arg::C(*k));
                                    e = self.ar.bin(Op::Or, 1, e, q);
                                }
                            }
                            let e = if hit { e } else { self.ar.not(e) };
                            let d = self.cond(e)?;
                            assert!(d);
                            to
                        }
                    };
                    Self::jump(self.top(), to);
                }
                Inst::Ret(o) => {
                    let v = o.as_ref().map(|o| Self::get(fr, o));
                    let (dest, normal, sp) = (fr.dest, fr.normal, fr.sp);
                    self.st.frames.pop();
                    self.st.sp = sp;
                    if self.st.frames.is_empty() {
                        return Err(Stop::Done);
                    }
                    if let Some(v) = v {
                        self.set(dest, v);
                    }
                    self.after_call(normal);
                }
                Inst::Call { d, ret, callee, args, normal } => {
                    let dest = d.unwrap_or(u32::MAX);
                    let normal = normal.unwrap_or(u32::MAX);
                    let fid = match callee {
                        Callee::Fn(i) => *i,
                        Callee::Asm(t) => {
                            if t.contains("cpuid") {
                                // A processor without optional features.
                                let z = zero_val(ret);
                                self.set(dest, z);
                            } else if !t.is_empty() {
                                return Err(Stop::Unsupported(format!("asm {t}")));
                            }
                            self.after_call(normal);
                            continue;
                        }
                        Callee::Reg(o) => {
                            let v = Self::get(fr, o);
                            let a = self.conc(&v)?;
                            let id = (a >> 32) as u32;
                            if id < ID_FUNC || a as u32 != 0 || (id - ID_FUNC) as usize >= self.fns.len() {
                                return Err(Stop::Unsupported(format!("call of {a:#x}")));
                            }
                            id - ID_FUNC
                        }
                        Callee::Name(_) => unreachable!(),
                    };
                    let fr: &Frame = self.st.frames.last().unwrap();
                    let vals: Vec<Val> = args.iter().map(|(_, o)| Self::get(fr, o)).collect();
                    match self.fns[fid as usize].kind {
                        FKind::Defined => self.enter(fid, vals, dest, normal)?,
                        FKind::Builtin(b) => {
                            let tys = args;
                            let r = self.builtin(b, fid, ret, tys, &vals)?;
                            if let Some(v) = r {
                                self.set(dest, v);
                            }
                            self.after_call(normal);
                        }
                        FKind::Extern => {
                            let n = self.fns[fid as usize].name.clone();
                            return Err(Stop::Unsupported(format!("external function {n}")));
                        }
                    }
                }
                Inst::Unreachable => return Err(Stop::Unsupported("unreachable reached".into())),
                Inst::Extract { d, a, path } => {
                    let mut v = Self::get(fr, a);
                    for i in path {
                        v = lanes_of(&v)[*i as usize].clone();
                    }
                    self.fin(*d, v);
                }
                Inst::Insert { d, ty: _, a, v, path } => {
                    let mut base = Self::get(fr, a);
                    let x = Self::get(fr, v);
                    fn ins(b: &mut Val, path: &[u32], x: Val) {
                        if path.is_empty() {
                            *b = x;
                            return;
                        }
                        if let Val::A(v) = b {
                            ins(&mut Rc::make_mut(v)[path[0] as usize], &path[1..], x)
                        } else {
                            panic!()
                        }
                    }
                    ins(&mut base, path, x);
                    self.fin(*d, base);
                }
                Inst::ExtractEl { d, a, i } => {
                    let v = Self::get(fr, a);
                    let iv = Self::get(fr, i);
                    let i = self.conc(&iv)?;
                    let r = lanes_of(&v)[i as usize].clone();
                    self.fin(*d, r);
                }
                Inst::InsertEl { d, ty: _, a, v, i } => {
                    let mut base = Self::get(fr, a);
                    let x = Self::get(fr, v);
                    let iv = Self::get(fr, i);
                    let i = self.conc(&iv)?;
                    if let Val::A(v) = &mut base {
                        Rc::make_mut(v)[i as usize] = x;
                    }
                    self.fin(*d, base);
                }
                Inst::Shuffle { d, ty, a, b, mask } => {
                    let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                    let (p, q) = (lanes_of(&x), lanes_of(&y));
                    let n = p.len() as i64;
                    let (ew, _) = shape(ty);
                    let z = if ew > 64 { Val::W(Box::new(0)) } else { Val::I(0) };
                    let r = mask.iter().map(|m| if *m < 0 { z.clone() } else if *m < n { p[*m as usize].clone() } else { q[(*m - n) as usize].clone() }).collect();
                    self.fin(*d, Val::A(Rc::new(r)));
                }
                Inst::Rmw { d, op, ty, p, v } => {
                    let pv = Self::get(fr, p);
                    let x = Self::get(fr, v);
                    let a = self.conc(&pv)?;
                    let old = self.load(a, ty)?;
                    let w = ty.bits();
                    let new = match op.as_str() {
                        "add" => self.bin_val(Op::Add, w, &old, &x),
                        "sub" => self.bin_val(Op::Sub, w, &old, &x),
                        "and" => self.bin_val(Op::And, w, &old, &x),
                        "or" => self.bin_val(Op::Or, w, &old, &x),
                        "xor" => self.bin_val(Op::Xor, w, &old, &x),
                        "xchg" => x,
                        "umax" => {
                            let c = self.ar.bin(Op::Ult, w, old.arg(), x.arg());
                            self.ite_val(c, &x, &old, w)
                        }
                        o => return Err(Stop::Unsupported(format!("atomicrmw {o}"))),
                    };
                    self.store(a, ty, &new)?;
                    self.fin(*d, old);
                }
                Inst::CmpXchg { d, ty, p, c, n } => {
                    let pv = Self::get(fr, p);
                    let (cv, nv) = (Self::get(fr, c), Self::get(fr, n));
                    let a = self.conc(&pv)?;
                    let old = self.load(a, ty)?;
                    let e = self.ar.bin(Op::Eq, ty.bits(), old.arg(), cv.arg());
                    let k = self.cond(e)?;
                    if k {
                        self.store(a, ty, &nv)?;
                    }
                    self.fin(*d, Val::A(Rc::new(vec![old, Val::I(k as u64)])));
                }
                Inst::Mov { d, a } => {
                    let v = Self::get(fr, a);
                    self.fin(*d, v);
                }
                Inst::Nop => self.top().ip += 1,
                Inst::FBin { op, w, d, a, b } => {
                    let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                    let x = if let Val::S(_) = x { Val::I(self.conc(&x)?) } else { x };
                    let y = if let Val::S(_) = y { Val::I(self.conc(&y)?) } else { y };
                    let r = fbin(op, *w, &x, &y)?;
                    self.fin(*d, r);
                }
                Inst::Fcmp { pred, w, d, a, b } => {
                    let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                    let x = if let Val::S(_) = x { Val::I(self.conc(&x)?) } else { x };
                    let y = if let Val::S(_) = y { Val::I(self.conc(&y)?) } else { y };
                    let (Val::I(p), Val::I(q)) = (&x, &y) else { return Err(Stop::Unsupported("symbolic float".into())) };
                    let (p, q) = (tof(*w, *p), tof(*w, *q));
                    let un = p.is_nan() || q.is_nan();
                    let r = match pred.as_str() {
                        "oeq" => p == q, "one" => !un && p != q, "olt" => p < q, "ole" => p <= q, "ogt" => p > q, "oge" => p >= q,
                        "ueq" => un || p == q, "une" => p != q, "ult" => un || p < q, "ule" => un || p <= q, "ugt" => un || p > q, "uge" => un || p >= q,
                        "uno" => un, "ord" => !un,
                        _ => false,
                    };
                    self.fin(*d, Val::I(r as u64));
                }
                Inst::Unsupported(s) => return Err(Stop::Unsupported(s.clone())),
            }
        }
    }
    #[inline]
    fn fin(&mut self, d: u32, v: Val) {
        let fr = Rc::make_mut(self.st.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }
}

fn tof(w: u32, x: u64) -> f64 {
    if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) }
}
fn fromf(w: u32, x: f64) -> Val {
    Val::I(if w == 32 { (x as f32).to_bits() as u64 } else { x.to_bits() })
}
fn fbin(op: &str, w: u32, a: &Val, b: &Val) -> R<Val> {
    let (Val::I(a), Val::I(b)) = (a, b) else { return Err(Stop::Unsupported("symbolic float".into())) };
    let (x, y) = (tof(w, *a), tof(w, *b));
    Ok(fromf(w, match op { "fadd" => x + y, "fsub" => x - y, "fmul" => x * y, "fdiv" => x / y, _ => x % y }))
}
fn fp_cast(k: &str, fw: u32, tw: u32, v: &Val) -> R<Val> {
    let Val::I(x) = v else { return Err(Stop::Unsupported("symbolic float cast".into())) };
    let x = *x;
    let sx = ((x << (64 - fw)) as i64) >> (64 - fw);
    let m = wmask(tw) as u64;
    Ok(match k {
        "uitofp" => fromf(tw, x as f64),
        "sitofp" => fromf(tw, sx as f64),
        "fptoui" => Val::I(tof(fw, x) as u64 & m),
        "fptosi" => Val::I(tof(fw, x) as i64 as u64 & m),
        _ => fromf(tw, tof(fw, x)),
    })
}

#[inline]
pub fn bin64(op: Op, w: u32, a: u64, b: u64) -> u64 {
    let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
    let s = |x: u64| if w >= 64 { x as i64 } else { ((x << (64 - w)) as i64) >> (64 - w) };
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Ule => (a <= b) as u64,
        Op::Slt => (s(a) < s(b)) as u64,
        Op::Sle => (s(a) <= s(b)) as u64,
        _ => cbin(op, w, a as u128, b as u128) as u64,
    }
}

mod smallbuf {
    use crate::mem::Val;
    pub struct Buf(Vec<Val>);
    impl Buf {
        pub fn new() -> Buf { Buf(Vec::with_capacity(8)) }
        pub fn push(&mut self, v: Val) { self.0.push(v) }
    }
    impl IntoIterator for Buf {
        type Item = Val;
        type IntoIter = std::vec::IntoIter<Val>;
        fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
    }
}
