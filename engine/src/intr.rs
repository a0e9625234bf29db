//! Built-in functions: harness primitives, LLVM intrinsics, libc, and the few
//! standard-library routines that are modelled instead of interpreted.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    SeByte, SeSet, SeAssume, SeCheck, SeReach, SeConc, SeIsSym, SeParam, SeFuel,
    Nop, NopRet, Id, Memcpy, Memset, Bcmp, Memcmp, Strlen,
    Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc,
    Umax, Umin, Smax, Smin, Abs, Fabs, Bswap, Bitrev, Ctlz, Cttz, Ctpop, Fshl, Fshr,
    Uadd, Usub, Umul, Sadd, Ssub, Smul, UaddSat, UsubSat, SaddSat, SsubSat, Ucmp, Scmp, False0,
    ReduceOr, ReduceAnd, ReduceAdd,
    Hash, Memchr, Memrchr, Panic, Abort, Errno, Zero, Write, Getrandom, Getcwd, Clock, Syscall, CharCount, NoEnt, Minus1, One,
}

#[derive(Clone, Default)]
pub struct Fs {
    pub errno: u64,
}

pub fn classify(n: &str) -> Option<B> {
    use B::*;
    if let Some(r) = n.strip_prefix("se_") {
        return Some(match r {
            "byte" => SeByte, "set" => SeSet, "assume" => SeAssume, "check" => SeCheck, "reach" => SeReach,
            "conc" => SeConc, "is_sym" => SeIsSym, "param" => SeParam, "fuel" => SeFuel,
            _ => return None,
        });
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let h = |p: &str| r.starts_with(p);
        return Some(
            if h("lifetime") || h("assume") || h("experimental.noalias") || h("dbg") || h("invariant") || h("donothing") || h("prefetch") || h("x86.sse2.pause") { Nop }
            else if h("memcpy") || h("memmove") { Memcpy }
            else if h("memset") { Memset }
            else if h("umax") { Umax } else if h("umin") { Umin } else if h("smax") { Smax } else if h("smin") { Smin }
            else if h("fabs.") { Fabs } else if h("abs.") { Abs } else if h("bswap") { Bswap } else if h("bitreverse") { Bitrev }
            else if h("ctlz") { Ctlz } else if h("cttz") { Cttz } else if h("ctpop") { Ctpop }
            else if h("fshl") { Fshl } else if h("fshr") { Fshr }
            else if h("uadd.with") { Uadd } else if h("usub.with") { Usub } else if h("umul.with") { Umul }
            else if h("sadd.with") { Sadd } else if h("ssub.with") { Ssub } else if h("smul.with") { Smul }
            else if h("uadd.sat") { UaddSat } else if h("usub.sat") { UsubSat } else if h("sadd.sat") { SaddSat } else if h("ssub.sat") { SsubSat }
            else if h("ucmp") { Ucmp } else if h("scmp") { Scmp }
            else if h("is.constant") { False0 }
            else if h("expect") || h("threadlocal.address") || h("ssa.copy") || h("launder.invariant") || h("strip.invariant") { Id }
            else if h("vector.reduce.or") { ReduceOr } else if h("vector.reduce.and") { ReduceAnd } else if h("vector.reduce.add") { ReduceAdd }
            else if h("trap") || h("debugtrap") { Abort }
            else { return None },
        );
    }
    Some(match n {
        "malloc" => Malloc, "calloc" => Calloc, "realloc" => Realloc, "free" => Free,
        "posix_memalign" => PosixMemalign, "aligned_alloc" => AlignedAlloc,
        "memcpy" | "memmove" => Memcpy, "memset" => Memset, "bcmp" => Bcmp, "memcmp" => Memcmp, "strlen" => Strlen,
        "__errno_location" => Errno, "abort" | "exit" | "_exit" => Abort,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "signal" | "sigaction" | "sigaltstack" | "pthread_key_delete" => Zero,
        "open64" | "open" | "stat64" | "statx" | "fstat64" | "lstat64" | "realpath" | "readlink" | "opendir" | "access" => NoEnt,
        "sched_getaffinity" => Minus1,
        "sysconf" => One,
        "write" => Write,
        "getcwd" => Getcwd,
        "clock_gettime" => Clock,
        "syscall" => Syscall,
        "getrandom" => Getrandom,
        _ => {
            if n.contains("8hash_one") { Hash }
            else if n.contains("6memchr14memchr_aligned") || n.contains("6memchr12memchr_naive") { Memchr }
            else if n.contains("6memchr7memrchr") && n.contains("4core5slice") { Memrchr }
            else if (n.contains("9panicking") && !n.contains("panic_count") && !n.contains("9panicking9panicking") && !n.contains("13catch_unwind") && !n.contains("9panicking3try"))
                || n.contains("13expect_failed") || n.contains("13unwrap_failed") || n.contains("rust_begin_unwind") || n.contains("16slice_error_fail")
                || n.contains("18handle_alloc_error") || n.contains("17capacity_overflow") || n.contains("slice_index_fail") || n.contains("13assert_failed") { Panic }
            else { return None }
        }
    })
}
/// Functions replaced even though they have a body.
pub fn overrides(n: &str) -> bool {
    (n.starts_with("se_") && n != "se_run") || matches!(classify(n), Some(B::Hash | B::Memchr | B::Memrchr | B::Panic | B::Abort | B::CharCount))
}

impl Eng {
    fn cstr(&mut self, p: u64, n: u64) -> R<String> {
        let (d, _) = self.read_bytes(p, n)?;
        Ok(String::from_utf8_lossy(&d).into_owned())
    }
    fn w_of(t: &Ty) -> u32 {
        shape(t).0
    }
    fn lanewise(&mut self, vs: &[&Val], f: &mut dyn FnMut(&mut Eng, &[Arg]) -> Arg, w: u32) -> Val {
        if let Val::A(x) = vs[0] {
            let n = x.len();
            let mut r = Vec::new();
            for i in 0..n {
                let a: Vec<Arg> = vs.iter().map(|v| match v {
                    Val::A(q) => q[i].arg(),
                    v => v.arg(),
                }).collect();
                let e = f(self, &a);
                r.push(Val::of(e, w));
            }
            return Val::A(Rc::new(r));
        }
        let a: Vec<Arg> = vs.iter().map(|v| v.arg()).collect();
        let e = f(self, &a);
        Val::of(e, w)
    }
    fn pair(&mut self, r: Arg, o: Arg, w: u32) -> Val {
        Val::A(Rc::new(vec![Val::of(r, w), Val::of(o, 1)]))
    }
    pub fn builtin(&mut self, b: B, _fid: u32, ret: &Ty, tys: &[(Ty, Opd)], v: &[Val]) -> R<Option<Val>> {
        use B::*;
        let fast = match (v.first(), v.get(1)) {
            (Some(Val::I(x)), Some(Val::I(y))) => Some((*x, *y)),
            _ => None,
        };
        Ok(match b {
            SeByte => {
                let lo = self.conc(&v[0])? as u8;
                let hi = self.conc(&v[1])? as u8;
                Some(self.new_sym((lo..=hi).collect()))
            }
            SeSet => {
                let p = self.conc(&v[0])?;
                let n = self.conc(&v[1])?;
                let (mut d, ov) = self.read_bytes(p, n)?;
                if ov.is_some() {
                    return Err(Stop::Unsupported("symbolic alphabet".into()));
                }
                d.sort_unstable();
                d.dedup();
                Some(self.new_sym(d))
            }
            SeAssume => {
                let a = v[0].arg();
                let e = match a {
                    Arg::C(0) => return Err(Stop::Assumed),
                    Arg::C(_) => return Ok(None),
                    Arg::E(e) => e,
                };
                let _ = e;
                if !self.cond(a)? {
                    return Err(Stop::Assumed);
                }
                None
            }
            SeCheck => {
                let p = self.conc(&v[1])?;
                let n = self.conc(&v[2])?;
                let l = self.cstr(p, n)?;
                let a = v[0].arg();
                let sy = matches!(a, Arg::E(_));
                let ok = self.cond(a)?;
                let e = self.res.checks.entry(l.clone()).or_default();
                e.count += 1;
                e.symbolic += sy as u64;
                if !ok {
                    return Err(Stop::Fail(l));
                }
                None
            }
            SeReach => {
                let p = self.conc(&v[0])?;
                let n = self.conc(&v[1])?;
                let l = self.cstr(p, n)?;
                let m = self.st.model.clone();
                let e = self.res.reach.entry(l).or_default();
                e.count += 1;
                if e.count == 1 {
                    e.model = m;
                }
                None
            }
            SeConc => {
                let x = self.conc(&v[0])?;
                Some(Val::I(x))
            }
            SeIsSym => Some(Val::I(1)),
            SeParam => {
                let i = self.conc(&v[0])? as usize;
                Some(Val::I(self.params.get(i).copied().unwrap_or(0) as u64))
            }
            SeFuel => {
                let x = self.conc(&v[0])?;
                self.st.fuel = self.st.steps + x;
                None
            }
            Nop => None,
            NopRet | Zero => if *ret == Ty::Void { None } else { Some(zero_val(ret)) },
            Id => Some(v[0].clone()),
            False0 => Some(Val::I(0)),
            Memcpy => {
                let n = self.conc(&v[2])?;
                if n > 0 {
                    let d = self.conc(&v[0])?;
                    let s = self.conc(&v[1])?;
                    let (data, ov) = self.read_bytes(s, n)?;
                    self.write_bytes(d, &data, ov.as_deref())?;
                }
                if *ret == Ty::Void { None } else { Some(v[0].clone()) }
            }
            Clock => {
                // Time stands still.
                let d = self.conc(&v[1])?;
                self.write_bytes(d, &[0u8; 16], None)?;
                Some(Val::I(0))
            }
            Getcwd => {
                // The working directory is fixed to /usr/lib (natively: set_current_dir).
                let d = self.conc(&v[0])?;
                self.write_bytes(d, b"/usr/lib\0", None)?;
                Some(Val::I(d))
            }
            Memset => {
                let n = self.conc(&v[2])?;
                if n > 0 {
                    let d = self.conc(&v[0])?;
                    match &v[1] {
                        Val::I(x) => self.write_bytes(d, &vec![*x as u8; n as usize], None)?,
                        Val::S(e) => {
                            let e = *e;
                            let w = self.ar.width[e as usize];
                            let b = self.ar.un(Un::Extract(0), w, 8, Arg::E(e));
                            match b {
                                Arg::C(c) => self.write_bytes(d, &vec![c as u8; n as usize], None)?,
                                Arg::E(e) => self.write_bytes(d, &vec![0; n as usize], Some(&vec![Ob { e, i: 0 }; n as usize]))?,
                            }
                        }
                        _ => panic!(),
                    }
                }
                if *ret == Ty::Void { None } else { Some(v[0].clone()) }
            }
            Bcmp | Memcmp => {
                let n = self.conc(&v[2])?;
                if n == 0 {
                    return Ok(Some(Val::I(0)));
                }
                let p = self.conc(&v[0])?;
                let q = self.conc(&v[1])?;
                let (a, ao) = self.read_bytes(p, n)?;
                let (c, co) = self.read_bytes(q, n)?;
                if ao.is_none() && co.is_none() {
                    let r = match a.cmp(&c) {
                        std::cmp::Ordering::Less => 0xffff_ffffu64,
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    };
                    return Ok(Some(Val::I(r)));
                }
                let xs = self.byte_args(p, n)?;
                let ys = self.byte_args(q, n)?;
                if b == Bcmp {
                    let mut e = Arg::C(1);
                    for (x, y) in xs.iter().zip(&ys) {
                        let k = self.ar.bin(Op::Eq, 8, *x, *y);
                        e = self.ar.bin(Op::And, 1, e, k);
                        if e == Arg::C(0) {
                            break;
                        }
                    }
                    let ne = self.ar.not(e);
                    let r = self.ar.un(Un::Zext, 1, 32, ne);
                    Some(Val::of(r, 32))
                } else {
                    let mut r = Arg::C(0);
                    for (x, y) in xs.iter().zip(&ys).rev() {
                        let k = self.ar.bin(Op::Eq, 8, *x, *y);
                        let l = self.ar.bin(Op::Ult, 8, *x, *y);
                        let d = self.ar.ite(l, Arg::C(0xffff_ffff), Arg::C(1), 32);
                        r = self.ar.ite(k, r, d, 32);
                    }
                    Some(Val::of(r, 32))
                }
            }
            Strlen => {
                let p = self.conc(&v[0])?;
                let mut n = 0;
                loop {
                    let x = self.load(p + n, &Ty::Int(8))?;
                    if self.conc(&x)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::I(n))
            }
            Malloc => {
                let n = self.conc(&v[0])?;
                if n > 1 << 30 {
                    return Err(Stop::Unsupported("huge allocation".into()));
                }
                Some(Val::I(self.malloc(n)))
            }
            AlignedAlloc => {
                let n = self.conc(&v[1])?;
                Some(Val::I(self.malloc(n)))
            }
            Calloc => {
                let n = self.conc(&v[0])?;
                let m = self.conc(&v[1])?;
                if n.saturating_mul(m) > 1 << 30 {
                    return Err(Stop::Unsupported("huge allocation".into()));
                }
                Some(Val::I(self.malloc(n * m)))
            }
            PosixMemalign => {
                let p = self.conc(&v[0])?;
                let n = self.conc(&v[2])?;
                let a = self.malloc(n);
                self.store(p, &Ty::Int(64), &Val::I(a))?;
                Some(Val::I(0))
            }
            Realloc => {
                let p = self.conc(&v[0])?;
                let n = self.conc(&v[1])?;
                if p == 0 {
                    return Ok(Some(Val::I(self.malloc(n))));
                }
                let id = (p >> 32) as u32;
                let old = match self.obj(id) {
                    Some(o) => o.data.len() as u64,
                    None => return Err(Stop::Unsupported("realloc of a dead object".into())),
                };
                let k = old.min(n);
                let (d, ov) = self.read_bytes(p, k)?;
                let a = self.malloc(n);
                self.write_bytes(a, &d, ov.as_deref())?;
                self.free(p)?;
                Some(Val::I(a))
            }
            Free => {
                let p = self.conc(&v[0])?;
                self.free(p)?;
                None
            }
            Umax | Umin | Smax | Smin => {
                let w = Self::w_of(ret);
                let op = if matches!(b, Umax | Umin) { Op::Ult } else { Op::Slt };
                let mx = matches!(b, Umax | Smax);
                if let Some((x, y)) = fast {
                    let lt = bin64(op, w, x, y) != 0;
                    return Ok(Some(Val::I(if lt ^ mx { x } else { y })));
                }
                Some(self.lanewise(&[&v[0], &v[1]], &mut |me, a| {
                    let c = me.ar.bin(op, w, a[0], a[1]);
                    let (p, q) = if mx { (a[1], a[0]) } else { (a[0], a[1]) };
                    me.ar.ite(c, p, q, w)
                }, w))
            }
            Abs => {
                let w = Self::w_of(ret);
                Some(self.lanewise(&[&v[0]], &mut |me, a| {
                    let c = me.ar.bin(Op::Slt, w, a[0], Arg::C(0));
                    let n = me.ar.bin(Op::Sub, w, Arg::C(0), a[0]);
                    me.ar.ite(c, n, a[0], w)
                }, w))
            }
            Fabs => {
                let w = Self::w_of(ret);
                Some(self.lanewise(&[&v[0]], &mut |me, a| me.ar.bin(Op::And, w, a[0], Arg::C((1u128 << (w - 1)) - 1)), w))
            }
            Bswap => {
                let w = Self::w_of(ret);
                Some(self.lanewise(&[&v[0]], &mut |me, a| {
                    let mut acc = me.ar.un(Un::Extract(0), w, 8, a[0]);
                    let mut aw = 8;
                    while aw < w {
                        let x = me.ar.un(Un::Extract(aw), w, 8, a[0]);
                        acc = me.ar.concat(acc, aw, x, 8);
                        aw += 8;
                    }
                    acc
                }, w))
            }
            Bitrev => {
                let w = Self::w_of(ret);
                let x = self.conc(&v[0])?;
                Some(Val::I(x.reverse_bits() >> (64 - w)))
            }
            Ctlz | Cttz | Ctpop => {
                let w = Self::w_of(ret);
                let u = match b { Ctlz => Un::Ctlz, Cttz => Un::Cttz, _ => Un::Ctpop };
                Some(self.lanewise(&[&v[0]], &mut |me, a| me.ar.un(u, w, w, a[0]), w))
            }
            Fshl | Fshr => {
                let w = Self::w_of(ret);
                let s = self.conc(&v[2])? as u32 % w;
                Some(self.lanewise(&[&v[0], &v[1]], &mut |me, a| {
                    let l = if b == Fshl { s } else { (w - s) % w };
                    if s == 0 {
                        return if b == Fshl { a[0] } else { a[1] };
                    }
                    let x = me.ar.bin(Op::Shl, w, a[0], Arg::C(l as u128));
                    let y = me.ar.bin(Op::LShr, w, a[1], Arg::C((w - l) as u128));
                    me.ar.bin(Op::Or, w, x, y)
                }, w))
            }
            Uadd | Usub | Umul | Sadd | Ssub | Smul => {
                let Ty::Struct(f, _) = ret else { panic!() };
                let w = f[0].bits();
                let (x, y) = (v[0].arg(), v[1].arg());
                if shape(&f[0]).1 != 0 {
                    return Err(Stop::Unsupported("vector overflow intrinsic".into()));
                }
                let ar = &mut self.ar;
                let (r, o) = match b {
                    Uadd => {
                        let r = ar.bin(Op::Add, w, x, y);
                        let o = ar.bin(Op::Ult, w, r, x);
                        (r, o)
                    }
                    Usub => {
                        let r = ar.bin(Op::Sub, w, x, y);
                        let o = ar.bin(Op::Ult, w, x, y);
                        (r, o)
                    }
                    Sadd | Ssub => {
                        let r = ar.bin(if b == Sadd { Op::Add } else { Op::Sub }, w, x, y);
                        let p = ar.bin(Op::Xor, w, x, r);
                        let q = if b == Sadd { ar.bin(Op::Xor, w, y, r) } else { ar.bin(Op::Xor, w, x, y) };
                        let t = ar.bin(Op::And, w, p, q);
                        let o = ar.bin(Op::Slt, w, t, Arg::C(0));
                        (r, o)
                    }
                    _ => {
                        if w > 64 {
                            return Err(Stop::Unsupported("wide multiplication".into()));
                        }
                        let u = if b == Umul { Un::Zext } else { Un::Sext };
                        let p = ar.un(u, w, 2 * w, x);
                        let q = ar.un(u, w, 2 * w, y);
                        let full = ar.bin(Op::Mul, 2 * w, p, q);
                        let r = ar.bin(Op::Mul, w, x, y);
                        let ext = ar.un(u, w, 2 * w, r);
                        let e = ar.bin(Op::Eq, 2 * w, ext, full);
                        let o = ar.not(e);
                        (r, o)
                    }
                };
                Some(self.pair(r, o, w))
            }
            UaddSat | UsubSat | SaddSat | SsubSat => {
                let w = Self::w_of(ret);
                Some(self.lanewise(&[&v[0], &v[1]], &mut |me, a| {
                    let ar = &mut me.ar;
                    match b {
                        UaddSat => {
                            let r = ar.bin(Op::Add, w, a[0], a[1]);
                            let o = ar.bin(Op::Ult, w, r, a[0]);
                            ar.ite(o, Arg::C(wmask(w)), r, w)
                        }
                        UsubSat => {
                            let r = ar.bin(Op::Sub, w, a[0], a[1]);
                            let o = ar.bin(Op::Ult, w, a[0], a[1]);
                            ar.ite(o, Arg::C(0), r, w)
                        }
                        _ => {
                            let r = ar.bin(if b == SaddSat { Op::Add } else { Op::Sub }, w, a[0], a[1]);
                            let p = ar.bin(Op::Xor, w, a[0], r);
                            let q = if b == SaddSat { ar.bin(Op::Xor, w, a[1], r) } else { ar.bin(Op::Xor, w, a[0], a[1]) };
                            let t = ar.bin(Op::And, w, p, q);
                            let o = ar.bin(Op::Slt, w, t, Arg::C(0));
                            let neg = ar.bin(Op::Slt, w, a[0], Arg::C(0));
                            let m = ar.ite(neg, Arg::C(1 << (w - 1)), Arg::C(wmask(w - 1)), w);
                            ar.ite(o, m, r, w)
                        }
                    }
                }, w))
            }
            Ucmp | Scmp => {
                let w = Self::w_of(&tys[0].0);
                let rw = Self::w_of(ret);
                let op = if b == Ucmp { Op::Ult } else { Op::Slt };
                Some(self.lanewise(&[&v[0], &v[1]], &mut |me, a| {
                    let l = me.ar.bin(op, w, a[0], a[1]);
                    let g = me.ar.bin(op, w, a[1], a[0]);
                    let x = me.ar.ite(g, Arg::C(1), Arg::C(0), rw);
                    me.ar.ite(l, Arg::C(wmask(rw)), x, rw)
                }, rw))
            }
            ReduceOr | ReduceAnd | ReduceAdd => {
                let w = Self::w_of(ret);
                let op = match b { ReduceOr => Op::Or, ReduceAnd => Op::And, _ => Op::Add };
                let Val::A(xs) = &v[0] else { panic!() };
                let mut acc = xs[0].arg();
                for x in &xs[1..] {
                    acc = self.ar.bin(op, w, acc, x.arg());
                }
                Some(Val::of(acc, w))
            }
            Hash => Some(Val::I(0x0101_0101_0101)),
            Memchr | Memrchr => {
                let p = self.conc(&v[1])?;
                let n = self.conc(&v[2])?;
                let xs = self.byte_args(p, n)?;
                let c = v[0].arg();
                let mut found = None;
                let order: Vec<usize> = if b == Memchr { (0..xs.len()).collect() } else { (0..xs.len()).rev().collect() };
                for i in order {
                    let e = self.ar.bin(Op::Eq, 8, xs[i], c);
                    if self.cond(e)? {
                        found = Some(i);
                        break;
                    }
                }
                Some(Val::A(Rc::new(vec![Val::I(found.is_some() as u64), Val::I(found.unwrap_or(0) as u64)])))
            }
            Panic => return Err(Stop::Panic("panic".into())),
            Abort => return Err(Stop::Panic("abort".into())),
            Errno => {
                let a = self.gaddr("__symir_errno");
                Some(Val::I(a))
            }
            Write => Some(v[2].clone()),
            Getrandom => {
                let p = self.conc(&v[0])?;
                let n = self.conc(&v[1])?;
                self.write_bytes(p, &vec![0; n as usize], None)?;
                Some(Val::I(n))
            }
            // Only futexes: one thread, so waiting is waiting for ever.
            Syscall => match (self.conc(&v[0])?, v.get(2).map(|o| self.conc(o)).transpose()?) {
                (202, Some(op)) => match op & 0x7f {
                    0 | 9 => return Err(Stop::Fuel),
                    _ => Some(Val::I(0)),
                },
                (n, _) => return Err(Stop::Unsupported(format!("syscall {n}"))),
            },
            CharCount => None,
            NoEnt => {
                let a = self.gaddr("__symir_errno");
                self.store(a, &Ty::Int(32), &Val::I(2))?;
                let w = Self::w_of(ret);
                Some(Val::I(if *ret == Ty::Ptr { 0 } else { wmask(w) as u64 }))
            }
            Minus1 => Some(Val::I(wmask(Self::w_of(ret)) as u64)),
            One => Some(Val::I(1)),
        })
    }
}
