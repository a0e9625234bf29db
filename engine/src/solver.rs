//! Z3 back end (libz3 through its C API).
use crate::expr::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint};
use std::time::Instant;

type P = *mut std::ffi::c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const std::os::raw::c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
}
extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("symir: z3 error code {e}: {}", m.to_string_lossy());
    std::process::abort();
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub ns: u64,
}

pub struct Solver {
    ctx: P,
    slv: P,
    bv: HashMap<Ex, P>,   // bit-vector term
    bl: HashMap<Ex, P>,   // boolean term (width 1 expressions)
    symc: HashMap<u32, P>, // by global symbol id
    cache: HashMap<Vec<u64>, (Verdict, Vec<(u32, u8)>)>,
    pub st: Stats,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, b"model\0".as_ptr() as *const c_char, b"true\0".as_ptr() as *const c_char);
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let lg = Z3_mk_string_symbol(ctx, b"QF_BV\0".as_ptr() as *const c_char);
            let slv = Z3_mk_solver_for_logic(ctx, lg);
            Z3_solver_inc_ref(ctx, slv);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = Z3_mk_string_symbol(ctx, b"timeout\0".as_ptr() as *const c_char);
            Z3_params_set_uint(ctx, p, k, timeout_ms);
            Z3_solver_set_params(ctx, slv, p);
            assert_eq!(Z3_get_error_code(ctx), 0);
            Solver { ctx, slv, bv: HashMap::new(), bl: HashMap::new(), symc: HashMap::new(), cache: HashMap::new(), st: Stats::default() }
        }
    }
    fn num(&self, w: u32, v: u128) -> P {
        unsafe {
            if w <= 64 {
                return Z3_mk_unsigned_int64(self.ctx, v as u64, Z3_mk_bv_sort(self.ctx, w));
            }
            let lo = Z3_mk_unsigned_int64(self.ctx, v as u64, Z3_mk_bv_sort(self.ctx, 64));
            let hi = Z3_mk_unsigned_int64(self.ctx, (v >> 64) as u64, Z3_mk_bv_sort(self.ctx, w - 64));
            Z3_mk_concat(self.ctx, hi, lo)
        }
    }
    fn sym(&mut self, g: u32) -> P {
        if let Some(p) = self.symc.get(&g) {
            return *p;
        }
        unsafe {
            let name = format!("in{g}\0");
            let s = Z3_mk_string_symbol(self.ctx, name.as_ptr() as *const c_char);
            let p = Z3_mk_const(self.ctx, s, Z3_mk_bv_sort(self.ctx, 8));
            self.symc.insert(g, p);
            p
        }
    }
    fn and(&self, v: &[P]) -> P {
        unsafe {
            match v.len() {
                0 => Z3_mk_true(self.ctx),
                1 => v[0],
                n => Z3_mk_and(self.ctx, n as c_uint, v.as_ptr()),
            }
        }
    }
    fn or(&self, v: &[P]) -> P {
        unsafe {
            match v.len() {
                0 => Z3_mk_false(self.ctx),
                1 => v[0],
                n => Z3_mk_or(self.ctx, n as c_uint, v.as_ptr()),
            }
        }
    }
    fn range(&self, s: P, lo: u8, hi: u8) -> P {
        unsafe {
            if lo == hi {
                return Z3_mk_eq(self.ctx, s, self.num(8, lo as u128));
            }
            let mut v = Vec::new();
            if lo > 0 {
                v.push(Z3_mk_bvule(self.ctx, self.num(8, lo as u128), s));
            }
            if hi < 255 {
                v.push(Z3_mk_bvule(self.ctx, s, self.num(8, hi as u128)));
            }
            self.and(&v)
        }
    }
    /// The byte `g` lies in the subset `m` of its domain.
    fn in_mask(&mut self, a: &Arena, g: u32, m: &Mask) -> P {
        let s = self.sym(g);
        let dom = a.doms[a.syms[g as usize].dom as usize].clone();
        let vals: Vec<u8> = mask_iter(*m).filter(|i| *i < dom.len()).map(|i| dom[i]).collect();
        let mut parts = Vec::new();
        let mut i = 0;
        while i < vals.len() {
            let mut j = i;
            while j + 1 < vals.len() && vals[j + 1] == vals[j].wrapping_add(1) && vals[j] != 255 {
                j += 1;
            }
            parts.push(self.range(s, vals[i], vals[j]));
            i = j + 1;
        }
        self.or(&parts)
    }
    fn arg_bv(&mut self, a: &Arena, w: u32, x: Arg) -> P {
        match x {
            Arg::C(c) => self.num(w, c),
            Arg::E(e) => self.to_bv(a, e),
        }
    }
    fn arg_bool(&mut self, a: &Arena, x: Arg) -> P {
        unsafe {
            match x {
                Arg::C(0) => Z3_mk_false(self.ctx),
                Arg::C(_) => Z3_mk_true(self.ctx),
                Arg::E(e) => self.to_bool(a, e),
            }
        }
    }
    pub fn to_bool(&mut self, a: &Arena, e: Ex) -> P {
        if let Some(p) = self.bl.get(&e) {
            return *p;
        }
        let c = self.ctx;
        let n = a.nodes[e as usize].clone();
        let p = unsafe {
            match n {
                Node::Tab { sym, tab } => {
                    let m = a.tabs[tab as usize].truth;
                    self.in_mask(a, sym, &m)
                }
                Node::Bin(op, w, x, y) => match op {
                    Op::And | Op::Or | Op::Xor if w == 1 => {
                        let p = self.arg_bool(a, x);
                        let q = self.arg_bool(a, y);
                        match op {
                            Op::And => self.and(&[p, q]),
                            Op::Or => self.or(&[p, q]),
                            _ => {
                                if y == Arg::C(1) { Z3_mk_not(c, p) } else { Z3_mk_xor(c, p, q) }
                            }
                        }
                    }
                    Op::Eq if w == 1 => {
                        let p = self.arg_bool(a, x);
                        let q = self.arg_bool(a, y);
                        Z3_mk_eq(c, p, q)
                    }
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                        let p = self.arg_bv(a, w, x);
                        let q = self.arg_bv(a, w, y);
                        match op {
                            Op::Eq => Z3_mk_eq(c, p, q),
                            Op::Ult => Z3_mk_bvult(c, p, q),
                            Op::Ule => Z3_mk_bvule(c, p, q),
                            Op::Slt => Z3_mk_bvslt(c, p, q),
                            _ => Z3_mk_bvsle(c, p, q),
                        }
                    }
                    _ => {
                        let p = self.to_bv(a, e);
                        Z3_mk_eq(c, p, self.num(1, 1))
                    }
                },
                Node::Ite(k, x, y) => {
                    let p = self.to_bool(a, k);
                    let q = self.arg_bool(a, x);
                    let r = self.arg_bool(a, y);
                    Z3_mk_ite(c, p, q, r)
                }
                _ => {
                    let p = self.to_bv(a, e);
                    Z3_mk_eq(c, p, self.num(1, 1))
                }
            }
        };
        self.bl.insert(e, p);
        p
    }
    fn to_bv(&mut self, a: &Arena, e: Ex) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        let c = self.ctx;
        let w = a.width[e as usize];
        let n = a.nodes[e as usize].clone();
        let p = unsafe {
            if w == 1 && matches!(n, Node::Tab { .. } | Node::Ite(..)) || matches!(n, Node::Bin(op, ..) if is_cmp(op)) {
                let b = self.to_bool(a, e);
                Z3_mk_ite(c, b, self.num(1, 1), self.num(1, 0))
            } else {
                match n {
                    Node::Tab { sym, tab } => self.tab_bv(a, sym, tab, w),
                    Node::Bin(op, ow, x, y) => {
                        let p = self.arg_bv(a, ow, x);
                        let q = self.arg_bv(a, ow, y);
                        match op {
                            Op::Add => Z3_mk_bvadd(c, p, q),
                            Op::Sub => Z3_mk_bvsub(c, p, q),
                            Op::Mul => Z3_mk_bvmul(c, p, q),
                            Op::UDiv => Z3_mk_bvudiv(c, p, q),
                            Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                            Op::URem => Z3_mk_bvurem(c, p, q),
                            Op::SRem => Z3_mk_bvsrem(c, p, q),
                            Op::And => Z3_mk_bvand(c, p, q),
                            Op::Or => Z3_mk_bvor(c, p, q),
                            Op::Xor => Z3_mk_bvxor(c, p, q),
                            Op::Shl => Z3_mk_bvshl(c, p, q),
                            Op::LShr => Z3_mk_bvlshr(c, p, q),
                            Op::AShr => Z3_mk_bvashr(c, p, q),
                            _ => unreachable!(),
                        }
                    }
                    Node::Un(u, ow, x) => {
                        let p = self.arg_bv(a, ow, x);
                        match u {
                            Un::Zext => Z3_mk_zero_ext(c, w - ow, p),
                            Un::Sext => Z3_mk_sign_ext(c, w - ow, p),
                            Un::Extract(lo) => Z3_mk_extract(c, lo + w - 1, lo, p),
                            Un::Ctlz => {
                                let mut r = self.num(w, ow as u128);
                                for i in 0..ow {
                                    let b = Z3_mk_eq(c, Z3_mk_extract(c, i, i, p), self.num(1, 1));
                                    r = Z3_mk_ite(c, b, self.num(w, (ow - 1 - i) as u128), r);
                                }
                                r
                            }
                            Un::Cttz => {
                                let mut r = self.num(w, ow as u128);
                                for i in (0..ow).rev() {
                                    let b = Z3_mk_eq(c, Z3_mk_extract(c, i, i, p), self.num(1, 1));
                                    r = Z3_mk_ite(c, b, self.num(w, i as u128), r);
                                }
                                r
                            }
                            Un::Ctpop => {
                                let mut r = self.num(w, 0);
                                for i in 0..ow {
                                    let b = Z3_mk_eq(c, Z3_mk_extract(c, i, i, p), self.num(1, 1));
                                    let one = Z3_mk_ite(c, b, self.num(w, 1), self.num(w, 0));
                                    r = Z3_mk_bvadd(c, r, one);
                                }
                                r
                            }
                        }
                    }
                    Node::Ite(k, x, y) => {
                        let p = self.to_bool(a, k);
                        let q = self.arg_bv(a, w, x);
                        let r = self.arg_bv(a, w, y);
                        Z3_mk_ite(c, p, q, r)
                    }
                    Node::Concat(h, hw, l, lw) => {
                        let p = self.arg_bv(a, hw, h);
                        let q = self.arg_bv(a, lw, l);
                        Z3_mk_concat(c, p, q)
                    }
                }
            }
        };
        self.bv.insert(e, p);
        p
    }
    /// A table as a piecewise term: maximal runs on which the value is constant
    /// or grows with the byte.
    fn tab_bv(&mut self, a: &Arena, sym: u32, tab: u32, w: u32) -> P {
        let c = self.ctx;
        let s = self.sym(sym);
        let dom = a.doms[a.syms[sym as usize].dom as usize].clone();
        let vals = a.tabs[tab as usize].vals.clone();
        let wm = wmask(w) as u64;
        // (first byte, last byte, value at first, slope)
        let mut runs: Vec<(u8, u8, u64, u8)> = Vec::new();
        let mut i = 0;
        while i < dom.len() {
            let mut j = i;
            let mut slope = 0u8;
            while j + 1 < dom.len() && dom[j + 1] as u32 == dom[j] as u32 + 1 {
                let d = vals[j + 1].wrapping_sub(vals[j]) & wm;
                if d > 1 || (j > i && d as u8 != slope) {
                    break;
                }
                slope = d as u8;
                j += 1;
            }
            runs.push((dom[i], dom[j], vals[i], slope));
            i = j + 1;
        }
        unsafe {
            let piece = |me: &Self, r: &(u8, u8, u64, u8)| -> P {
                if r.3 == 0 {
                    me.num(w, r.2 as u128)
                } else {
                    let sb = if w == 8 { s } else if w > 8 { Z3_mk_zero_ext(c, w - 8, s) } else { Z3_mk_extract(c, w - 1, 0, s) };
                    let off = r.2.wrapping_sub(r.0 as u64) & wm;
                    if off == 0 { sb } else { Z3_mk_bvadd(c, sb, me.num(w, off as u128)) }
                }
            };
            let mut t = piece(self, runs.last().unwrap());
            for r in runs[..runs.len() - 1].iter().rev() {
                let cnd = Z3_mk_bvule(c, s, self.num(8, r.1 as u128));
                let p = piece(self, r);
                t = Z3_mk_ite(c, cnd, p, t);
            }
            t
        }
    }
    /// Satisfiability of (masks over bytes) and (width-1 constraints).
    /// `masks`: (global symbol, mask).  On Sat returns values for these bytes.
    pub fn check(&mut self, a: &Arena, masks: &[(u32, Mask)], cons: &[(Ex, bool)]) -> (Verdict, Vec<(u32, u8)>) {
        let mut key: Vec<u64> = Vec::with_capacity(masks.len() * 5 + cons.len() + 1);
        for (g, m) in masks {
            key.push(*g as u64);
            key.extend_from_slice(m);
        }
        key.push(u64::MAX);
        let mut cs: Vec<(Ex, bool)> = cons.to_vec();
        cs.sort_unstable();
        for (e, p) in &cs {
            key.push((*e as u64) << 1 | *p as u64);
        }
        if let Some(r) = self.cache.get(&key) {
            self.st.cached += 1;
            return r.clone();
        }
        let r = self.check_nocache(a, masks, &cs);
        self.cache.insert(key, r.clone());
        r
    }
    pub fn check_nocache(&mut self, a: &Arena, masks: &[(u32, Mask)], cs: &[(Ex, bool)]) -> (Verdict, Vec<(u32, u8)>) {
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_push(self.ctx, self.slv);
            for (g, m) in masks {
                let p = self.in_mask(a, *g, m);
                Z3_solver_assert(self.ctx, self.slv, p);
            }
            for (e, pol) in cs {
                let mut p = self.to_bool(a, *e);
                if !*pol {
                    p = Z3_mk_not(self.ctx, p);
                }
                Z3_solver_assert(self.ctx, self.slv, p);
            }
            let v = match Z3_solver_check(self.ctx, self.slv) {
                1 => Verdict::Sat,
                -1 => Verdict::Unsat,
                _ => Verdict::Unknown,
            };
            let mut vals = Vec::new();
            if v == Verdict::Sat {
                let m = Z3_solver_get_model(self.ctx, self.slv);
                Z3_model_inc_ref(self.ctx, m);
                for (g, _) in masks {
                    let s = self.sym(*g);
                    let mut out: P = std::ptr::null_mut();
                    Z3_model_eval(self.ctx, m, s, true, &mut out);
                    let mut x = 0u64;
                    Z3_get_numeral_uint64(self.ctx, out, &mut x);
                    vals.push((*g, x as u8));
                }
                Z3_model_dec_ref(self.ctx, m);
            }
            Z3_solver_pop(self.ctx, self.slv, 1);
            (v, vals)
        };
        self.st.ns += t0.elapsed().as_nanos() as u64;
        match r.0 {
            Verdict::Sat => self.st.sat += 1,
            Verdict::Unsat => self.st.unsat += 1,
            Verdict::Unknown => self.st.unknown += 1,
        }
        r
    }
}
