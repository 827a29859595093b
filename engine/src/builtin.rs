//! Environment models: allocator, libc, LLVM intrinsics, panics and the harness API.
use crate::exec::*;
use crate::expr::*;
use crate::ll::*;
use crate::z3::Res;
use std::rc::Rc;

macro_rules! builtins {
    ($($v:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u32)]
        #[allow(non_camel_case_types)]
        pub enum B { $($v),* }
        const ALL: &[B] = &[$(B::$v),*];
    };
}
builtins!(
    Alloc, AllocZeroed, Dealloc, Realloc, Malloc, Calloc, Free, CRealloc, PosixMemalign, AlignedAlloc,
    Memcpy, Memmove, Memset, Memcmp, Bcmp, Strlen, Memchr, Memrchr, Getenv, Abort, Write, RetZero, RetOne, RetNeg1, Nop,
    ClockGettime, Getrandom, Syscall, HashFinish, HashWrite,
    PanicFmt, PanicNounwind, Unwind, FmtInt, FmtFloat,
    SymV, SymFill, Assume, Assert, Reach, Out, AllowPanic, IsSym, Concretize, Choose,
    IAssume, IMemcpy, IMemset, IUadd, ISadd, IUsub, ISsub, IUmul, ISmul, IUmin, IUmax, ISmin, ISmax,
    IFshl, IFshr, ICtpop, ICtlz, ICttz, IBswap, IBitrev, IAbs, IUaddSat, IUsubSat, ISaddSat, ISsubSat, IUshlSat,
    IFabs, ISqrt, IFloor, ICeil, ITrunc, IRint, IRound, ICopysign, IFma, IMinnum, IMaxnum, IPowi, IPow, IExp, ILog, ILog2, ILog10,
    IFpToSiSat, IFpToUiSat, IFpClass, ITrap, IArg0, IZero, IObjSize, IPtrMask, ILoadRel, IAddCarry, ISubBorrow, IScmp, IUcmp,
    IRedAdd, IRedAnd, IRedOr, IRedXor, IRedMul, IRedUmax, IRedUmin, IRedSmax, IRedSmin, IPsadbw, IMovmsk, ISin,
    LMath1, LMath2,
);
pub fn from_id(i: u32) -> B {
    ALL[i as usize]
}

pub fn lookup(name: &[u8]) -> Option<u32> {
    look(name).map(|b| b as u32)
}
fn look(name: &[u8]) -> Option<B> {
    let s = std::str::from_utf8(name).ok()?;
    if let Some(rest) = s.strip_prefix("llvm.") {
        return intrinsic(rest);
    }
    Some(match s {
        "__rust_alloc" => B::Alloc,
        "__rust_alloc_zeroed" => B::AllocZeroed,
        "__rust_dealloc" => B::Dealloc,
        "__rust_realloc" => B::Realloc,
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "free" => B::Free,
        "realloc" => B::CRealloc,
        "posix_memalign" => B::PosixMemalign,
        "aligned_alloc" | "memalign" => B::AlignedAlloc,
        "memcpy" | "memmove" => B::Memcpy,
        "memset" => B::Memset,
        "memcmp" => B::Memcmp,
        "bcmp" => B::Bcmp,
        "strlen" => B::Strlen,
        "memchr" => B::Memchr,
        "memrchr" => B::Memrchr,
        "getenv" | "secure_getenv" => B::RetZero,
        "abort" | "__rust_abort" | "_exit" | "exit" => B::Abort,
        "write" | "writev" => B::Write,
        "__cxa_thread_atexit_impl" | "__cxa_atexit" | "pthread_key_create" | "pthread_setspecific"
        | "pthread_key_delete" | "sched_yield" | "pthread_self" | "gettid" | "getpid" | "__errno_location_unused"
        | "pthread_getspecific" | "mprotect" | "munmap" | "madvise" => B::RetZero,
        "sysconf" => B::RetNeg1,
        "clock_gettime" => B::ClockGettime,
        "getrandom" => B::Getrandom,
        "syscall" => B::Syscall,
        "rust_begin_unwind" | "__rust_start_panic" | "_Unwind_RaiseException" | "_Unwind_Resume" => B::Unwind,
        "__rust_no_alloc_shim_is_unstable" => return None,
        "vsx_sym" => B::SymV,
        "vsx_sym_fill" => B::SymFill,
        "vsx_assume" => B::Assume,
        "vsx_assert" => B::Assert,
        "vsx_reach" => B::Reach,
        "vsx_out" => B::Out,
        "vsx_allow_panic" => B::AllowPanic,
        "vsx_is_sym" => B::IsSym,
        "vsx_concretize" => B::Concretize,
        "vsx_choose" => B::Choose,
        "floor" | "floorf" | "ceil" | "ceilf" | "trunc" | "truncf" | "round" | "roundf" | "rint" | "rintf" | "sqrt"
        | "sqrtf" | "exp" | "expf" | "log" | "logf" | "log2" | "log2f" | "log10" | "log10f" | "nearbyint" | "roundeven" => B::LMath1,
        "fmod" | "fmodf" | "pow" | "powf" | "fmin" | "fminf" | "fmax" | "fmaxf" => B::LMath2,
        _ => {
            if s.starts_with("_ZN4core9panicking9panic_fmt17h") {
                B::PanicFmt
            } else if s.starts_with("_ZN4core9panicking18panic_nounwind_fmt17h")
                || s.starts_with("_ZN4core9panicking14panic_nounwind17h")
                || s.starts_with("_ZN5alloc5alloc18handle_alloc_error17h")
            {
                B::PanicNounwind
            } else if s.starts_with("_ZN3std9panicking20rust_panic_with_hook17h") || s.starts_with("_ZN3std9panicking11begin_panic17h") {
                B::Unwind
            } else if s.starts_with("_ZN4core3fmt3num") && s.contains("$LT$impl$u20$core..fmt.") && s.contains("3fmt17h") {
                B::FmtInt
            } else if s.starts_with("_ZN4core3fmt5float") && s.contains("3fmt17h") {
                B::FmtFloat
            } else if s.contains("RandomState") && s.contains("hash_one") && false {
                B::HashFinish
            } else {
                return None;
            }
        }
    })
}
fn intrinsic(r: &str) -> Option<B> {
    let p = |x: &str| r == x || (r.starts_with(x) && r.as_bytes()[x.len()] == b'.');
    let tab: &[(&str, B)] = &[
        ("assume", B::IAssume),
        ("memcpy", B::IMemcpy),
        ("memmove", B::IMemcpy),
        ("memset", B::IMemset),
        ("uadd.with.overflow", B::IUadd),
        ("sadd.with.overflow", B::ISadd),
        ("usub.with.overflow", B::IUsub),
        ("ssub.with.overflow", B::ISsub),
        ("umul.with.overflow", B::IUmul),
        ("smul.with.overflow", B::ISmul),
        ("uadd.sat", B::IUaddSat),
        ("usub.sat", B::IUsubSat),
        ("sadd.sat", B::ISaddSat),
        ("ssub.sat", B::ISsubSat),
        ("umin", B::IUmin),
        ("umax", B::IUmax),
        ("smin", B::ISmin),
        ("smax", B::ISmax),
        ("fshl", B::IFshl),
        ("fshr", B::IFshr),
        ("ctpop", B::ICtpop),
        ("ctlz", B::ICtlz),
        ("cttz", B::ICttz),
        ("bswap", B::IBswap),
        ("bitreverse", B::IBitrev),
        ("abs", B::IAbs),
        ("fabs", B::IFabs),
        ("sqrt", B::ISqrt),
        ("floor", B::IFloor),
        ("ceil", B::ICeil),
        ("trunc", B::ITrunc),
        ("rint", B::IRint),
        ("nearbyint", B::IRint),
        ("roundeven", B::IRint),
        ("round", B::IRound),
        ("copysign", B::ICopysign),
        ("fma", B::IFma),
        ("fmuladd", B::IFma),
        ("minnum", B::IMinnum),
        ("maxnum", B::IMaxnum),
        ("minimumnum", B::IMinnum),
        ("maximumnum", B::IMaxnum),
        ("powi", B::IPowi),
        ("pow", B::IPow),
        ("exp", B::IExp),
        ("log", B::ILog),
        ("log2", B::ILog2),
        ("log10", B::ILog10),
        ("fptosi.sat", B::IFpToSiSat),
        ("fptoui.sat", B::IFpToUiSat),
        ("is.fpclass", B::IFpClass),
        ("trap", B::ITrap),
        ("debugtrap", B::ITrap),
        ("ubsantrap", B::ITrap),
        ("expect", B::IArg0),
        ("threadlocal.address", B::IArg0),
        ("launder.invariant.group", B::IArg0),
        ("is.constant", B::IZero),
        ("objectsize", B::IObjSize),
        ("ptrmask", B::IPtrMask),
        ("load.relative", B::ILoadRel),
        ("x86.addcarry.64", B::IAddCarry),
        ("x86.subborrow.64", B::ISubBorrow),
        ("x86.sse2.pause", B::Nop),
        ("x86.avx.vzeroupper", B::Nop),
        ("prefetch", B::Nop),
        ("stackrestore", B::Nop),
        ("stacksave", B::IZero),
        ("sideeffect", B::Nop),
        ("invariant.start", B::IZero),
        ("invariant.end", B::Nop),
        ("lifetime.start", B::Nop),
        ("lifetime.end", B::Nop),
        ("experimental.noalias.scope.decl", B::Nop),
        ("scmp", B::IScmp),
        ("ucmp", B::IUcmp),
        ("vector.reduce.add", B::IRedAdd),
        ("vector.reduce.and", B::IRedAnd),
        ("vector.reduce.or", B::IRedOr),
        ("vector.reduce.xor", B::IRedXor),
        ("vector.reduce.mul", B::IRedMul),
        ("vector.reduce.umax", B::IRedUmax),
        ("vector.reduce.umin", B::IRedUmin),
        ("vector.reduce.smax", B::IRedSmax),
        ("vector.reduce.smin", B::IRedSmin),
        ("x86.sse2.psad.bw", B::IPsadbw),
        ("x86.sse2.pmovmskb.128", B::IMovmsk),
    ];
    tab.iter().find(|(n, _)| p(n)).map(|x| x.1)
}

impl Engine {
    fn pair(&mut self, a: Ref, b: Ref) -> Val {
        let (x, y) = (self.v(a), self.v(b));
        Val::A(Rc::new(vec![x, y]))
    }
    fn overflow(&mut self, b: B, w: u16, x: Ref, y: Ref) -> (Ref, Ref) {
        let cx = &mut self.cx;
        match b {
            B::IUadd => {
                let s = cx.bin(Op::Add, x, y);
                let o = cx.bin(Op::Ult, s, x);
                (s, o)
            }
            B::IUsub => {
                let s = cx.bin(Op::Sub, x, y);
                let o = cx.bin(Op::Ult, x, y);
                (s, o)
            }
            B::ISadd | B::ISsub => {
                let op = if b == B::ISadd { Op::Add } else { Op::Sub };
                let s = cx.bin(op, x, y);
                if w < 128 && (cx.smag(x, 6) + cx.smag(y, 6) < 1 << (w - 1) || b == B::ISadd && cx.div_sum(x, y).is_some()) {
                    return (s, cx.fls);
                }
                if w < 128 {
                    let (a, c) = (cx.sext(x, w + 1), cx.sext(y, w + 1));
                    let t = cx.bin(op, a, c);
                    let hi = cx.extract(t, w, w);
                    let lo = cx.extract(t, w - 1, w - 1);
                    let o = cx.bin(Op::Xor, hi, lo);
                    (s, o)
                } else {
                    // sign rule
                    let (sx, sy, ss) = (cx.extract(x, w - 1, w - 1), cx.extract(y, w - 1, w - 1), cx.extract(s, w - 1, w - 1));
                    let d = cx.bin(Op::Xor, sx, sy);
                    let same = if b == B::ISadd { cx.not(d) } else { d };
                    let ch = cx.bin(Op::Xor, sx, ss);
                    let o = cx.bin(Op::And, same, ch);
                    (s, o)
                }
            }
            B::IUmul => {
                let s = cx.bin(Op::Mul, x, y);
                if w <= 64 {
                    let (a, c) = (cx.zext(x, 2 * w), cx.zext(y, 2 * w));
                    let t = cx.bin(Op::Mul, a, c);
                    let lim = cx.cst(2 * w, mask(w));
                    let o = if cx.umax_of(t, 8) <= mask(w) {
                        cx.fls
                    } else if let Some(k) = cx.as_const(y) {
                        // x * k overflows iff x > max / k
                        if k == 0 {
                            cx.fls
                        } else {
                            let l = cx.cst(w, mask(w) / k);
                            cx.bin(Op::Ult, l, x)
                        }
                    } else {
                        cx.bin(Op::Ult, lim, t)
                    };
                    (s, o)
                } else {
                    let z = cx.cst(w, 0);
                    let zx = cx.bin(Op::Eq, x, z);
                    let q = cx.bin(Op::UDiv, s, x);
                    let e = cx.bin(Op::Eq, q, y);
                    let ok = cx.bin(Op::Or, zx, e);
                    let o = cx.not(ok);
                    (s, o)
                }
            }
            B::ISmul => {
                let s = cx.bin(Op::Mul, x, y);
                if w <= 64 {
                    if let Some(k) = cx.as_const(y) {
                        let k = sext(k, w);
                        if k > 0 && cx.smag(x, 6).saturating_mul(k as u128) < 1 << (w - 1) {
                            return (s, cx.fls);
                        }
                        if k > 0 {
                            let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                            let l = cx.cst(w, (lo / k) as u128);
                            let h = cx.cst(w, (hi / k) as u128);
                            let a = cx.bin(Op::Slt, x, l);
                            let b = cx.bin(Op::Slt, h, x);
                            let o = cx.bin(Op::Or, a, b);
                            return (s, o);
                        }
                    }
                    let (a, c) = (cx.sext(x, 2 * w), cx.sext(y, 2 * w));
                    let t = cx.bin(Op::Mul, a, c);
                    let back = cx.sext(s, 2 * w);
                    let e = cx.bin(Op::Eq, t, back);
                    let o = cx.not(e);
                    (s, o)
                } else {
                    let z = cx.cst(w, 0);
                    let zx = cx.bin(Op::Eq, x, z);
                    let q = cx.bin(Op::SDiv, s, x);
                    let e = cx.bin(Op::Eq, q, y);
                    let m1 = cx.cst(w, mask(w));
                    let min = cx.cst(w, 1u128 << (w - 1));
                    let c1 = cx.bin(Op::Eq, x, m1);
                    let c2 = cx.bin(Op::Eq, y, min);
                    let special = cx.bin(Op::And, c1, c2);
                    let ns = cx.not(special);
                    let e = cx.bin(Op::And, e, ns);
                    let ok = cx.bin(Op::Or, zx, e);
                    let o = cx.not(ok);
                    (s, o)
                }
            }
            _ => unreachable!(),
        }
    }
    fn bits1(&mut self, b: B, w: u16, x: Ref) -> Ref {
        let cx = &mut self.cx;
        if let Some(v) = cx.as_const(x) {
            let r = match b {
                B::ICtpop => v.count_ones() as u128,
                B::ICtlz => (v.leading_zeros() as u128) - (128 - w as u128),
                B::ICttz => (v.trailing_zeros() as u128).min(w as u128),
                B::IBswap => v.swap_bytes() >> (128 - w),
                B::IBitrev => v.reverse_bits() >> (128 - w),
                _ => unreachable!(),
            };
            return cx.cst(w, r);
        }
        match b {
            B::ICtpop => {
                // tree of narrow additions
                let mut parts: Vec<Ref> = (0..w).map(|i| cx.extract(x, i, i)).collect();
                let mut pw = 1;
                while parts.len() > 1 {
                    pw += 1;
                    let mut next = vec![];
                    for c in parts.chunks(2) {
                        let a = cx.zext(c[0], pw);
                        if c.len() == 2 {
                            let b = cx.zext(c[1], pw);
                            next.push(cx.bin(Op::Add, a, b));
                        } else {
                            next.push(a);
                        }
                    }
                    parts = next;
                }
                if pw > w {
                    cx.extract(parts[0], w - 1, 0)
                } else {
                    cx.zext(parts[0], w)
                }
            }
            B::ICtlz => {
                let mut acc = cx.cst(w, w as u128);
                for i in 0..w {
                    let top = cx.extract(x, w - 1, i);
                    let z = cx.cst(w - i, 0);
                    let e = cx.bin(Op::Eq, top, z);
                    let k = cx.cst(w, (w - 1 - i) as u128);
                    acc = cx.ite(e, acc, k);
                }
                acc
            }
            B::ICttz => {
                let mut acc = cx.cst(w, w as u128);
                for i in (0..w).rev() {
                    let low = cx.extract(x, i, 0);
                    let z = cx.cst(i + 1, 0);
                    let e = cx.bin(Op::Eq, low, z);
                    let k = cx.cst(w, i as u128);
                    acc = cx.ite(e, acc, k);
                }
                acc
            }
            B::IBswap => {
                let mut acc = cx.extract(x, 7, 0);
                for i in 1..w / 8 {
                    let p = cx.extract(x, 8 * i + 7, 8 * i);
                    acc = cx.concat(acc, p);
                }
                acc
            }
            B::IBitrev => {
                let mut acc = cx.extract(x, 0, 0);
                for i in 1..w {
                    let p = cx.extract(x, i, i);
                    acc = cx.concat(acc, p);
                }
                acc
            }
            _ => unreachable!(),
        }
    }
    fn lanes1(&mut self, v: &Val, f: &mut dyn FnMut(&mut Engine, &Val) -> R<Val>) -> R<Val> {
        match v {
            Val::A(x) => {
                let mut out = vec![];
                for e in x.iter() {
                    out.push(f(self, e)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            v => f(self, v),
        }
    }
    fn lanes2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Engine, &Val, &Val) -> R<Val>) -> R<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut out = vec![];
                for i in 0..x.len() {
                    out.push(f(self, &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            (a, b) => f(self, a, b),
        }
    }
    fn str_at(&mut self, st: &mut State, p: &Val, n: &Val) -> String {
        let (Some(p), Some(n)) = (p.conc(), n.conc()) else { return "?".into() };
        let save = self.viol.len();
        match self.read_conc(st, p as u64, (n as u64).min(4096)) {
            Ok(b) => String::from_utf8_lossy(&b).into_owned(),
            Err(_) => {
                self.viol.truncate(save);
                "?".into()
            }
        }
    }
    fn panic_text(&mut self, st: &mut State, args: &Val, loc: &Val) -> String {
        let save = self.viol.len();
        let pv = self.st.paths_viol;
        let mut out = String::new();
        let g = |s: &mut Engine, st: &mut State, p: &Val, off: u64| -> Val {
            let q = s.addv(p, off);
            s.load_n(st, &q, 8).unwrap_or(Val::I(0))
        };
        if let Some(a) = args.conc() {
            if a != 0 {
                let pieces = g(self, st, args, 0);
                let np = g(self, st, args, 8).conc().unwrap_or(0).min(16);
                let av = g(self, st, args, 16);
                let na = g(self, st, args, 24).conc().unwrap_or(0).min(16);
                for i in 0..np.max(na) as u64 {
                    if (i as u128) < np {
                        let p = g(self, st, &pieces, 16 * i);
                        let n = g(self, st, &pieces, 16 * i + 8);
                        out += &self.str_at(st, &p, &n);
                    }
                    if (i as u128) < na {
                        let vp = g(self, st, &av, 16 * i);
                        let fp = g(self, st, &av, 16 * i + 8).conc().unwrap_or(0) as u64;
                        let key = (fp >> 32) as u32;
                        let name = if key >= crate::mem::FNS && ((key - crate::mem::FNS) as usize) < self.w.fns.len() {
                            demangle(self.w.fns[(key - crate::mem::FNS) as usize].name)
                        } else {
                            String::new()
                        };
                        if name.contains("str") || name.contains("String") || name.contains("&T") {
                            let off = if name.contains("String") { 8 } else { 0 };
                            let (mut p, mut n) = (g(self, st, &vp, off), g(self, st, &vp, off + 8));
                            if name.contains("&T") {
                                let inner = p.clone();
                                p = g(self, st, &inner, 0);
                                n = g(self, st, &inner, 8);
                            }
                            out += &self.str_at(st, &p, &n);
                        } else {
                            out += "{..}";
                        }
                    }
                }
            }
        }
        if let Some(l) = loc.conc() {
            if l != 0 {
                let fp = g(self, st, loc, 0);
                let fl = g(self, st, loc, 8);
                let file = self.str_at(st, &fp, &fl);
                let q = self.addv(loc, 16);
                let line = self.load_n(st, &q, 4).ok().and_then(|v| v.conc()).unwrap_or(0);
                out += &format!(" at {file}:{line}");
            }
        }
        self.viol.truncate(save);
        self.st.paths_viol = pv;
        out
    }
    fn panicked(&mut self, st: &mut State, msg: String) -> R<Option<Val>> {
        if st.allow_panic {
            return Err(End::AllowedPanic(msg));
        }
        let m = st.model.clone();
        let msg: String = msg.chars().take(300).collect();
        self.report(st, &m, "panic", msg.clone());
        Err(End::Violation("panic".into(), msg))
    }
    fn cmp_bytes(&mut self, st: &mut State, a: &Val, b: &Val, n: u64, ordered: bool) -> R<Val> {
        if n == 0 {
            return Ok(Val::I(0));
        }
        let (pa, pb) = (self.concretize(st, a)?, self.concretize(st, b)?);
        // touch both ranges for bounds
        let mut pieces: Vec<(Ref, Ref, u16)> = vec![];
        let mut i = 0;
        while i < n {
            let k = if !ordered && n - i >= 8 { 8 } else { 1 };
            let x = self.load_n(st, &Val::I(pa + i), k as usize)?;
            let y = self.load_n(st, &Val::I(pb + i), k as usize)?;
            if let (Some(p), Some(q)) = (x.conc(), y.conc()) {
                if p != q && pieces.is_empty() {
                    let (l, g) = ((-1i32) as u32 as u64, 1u64);
                    return Ok(Val::I(if p < q { l } else { g }));
                }
                if p == q {
                    i += k;
                    continue;
                }
            }
            let (p, q) = (self.r(&x, 8 * k as u16), self.r(&y, 8 * k as u16));
            pieces.push((p, q, 8 * k as u16));
            i += k;
        }
        let mut acc = self.cx.cst(32, 0);
        let one = self.cx.cst(32, 1);
        let neg = self.cx.cst(32, 0xffff_ffff);
        if !ordered {
            let mut eq = self.cx.tru;
            for (p, q, _) in pieces {
                let e = self.cx.bin(Op::Eq, p, q);
                eq = self.cx.bin(Op::And, eq, e);
            }
            let r = self.cx.ite(eq, acc, one);
            return Ok(self.v(r));
        }
        for (p, q, _) in pieces.into_iter().rev() {
            let e = self.cx.bin(Op::Eq, p, q);
            let l = self.cx.bin(Op::Ult, p, q);
            let d = self.cx.ite(l, neg, one);
            acc = self.cx.ite(e, acc, d);
        }
        Ok(self.v(acc))
    }
    fn do_alloc(&mut self, st: &mut State, size: &Val, align: &Val, fill: u8) -> R<Val> {
        let s = self.concretize(st, size)?;
        let a = self.concretize(st, align)?;
        if s > (1 << 30) {
            return Err(End::Limit(format!("allocation of {s} bytes")));
        }
        Ok(Val::I(st.mem.alloc_heap(s, a.max(1), fill)))
    }
    fn do_free(&mut self, st: &mut State, p: &Val) -> R<()> {
        let a = self.concretize(st, p)?;
        if a == 0 {
            return Ok(());
        }
        let key = (a >> 32) as u32;
        let ok = (crate::mem::HEAP..crate::mem::STACK).contains(&key)
            && match st.mem.get(key) {
                Some(o) => o.base == a as u32,
                None => false,
            };
        if !ok {
            let m = st.model.clone();
            self.report(st, &m, "memory", "invalid or double free".into());
            return Err(End::Violation("memory".into(), String::new()));
        }
        *st.mem.heap.slot(key - crate::mem::HEAP) = None;
        Ok(())
    }
    fn fmath(&mut self, op: Op, v: &Val, w: u16) -> R<Val> {
        self.lanes1(v, &mut |s, x| {
            let r = s.r(x, w);
            let r = s.cx.fp(op, w, r, 0, 0);
            Ok(s.v(r))
        })
    }

    /// Ok(None): not handled here, run the real body.
    pub fn builtin(&mut self, st: &mut State, b: u32, fid: u32, c: &'static CallI, a: &[Val]) -> R<Option<Val>> {
        let b = from_id(b);
        let un = |s: &str| -> R<Option<Val>> { Err(End::Unsup(s.to_string())) };
        let (rw, _rl) = self.w.wl(c.ret);
        Ok(Some(match b {
            B::Alloc => self.do_alloc(st, &a[0], &a[1], 0xA5)?,
            B::AllocZeroed => self.do_alloc(st, &a[0], &a[1], 0)?,
            B::Malloc => self.do_alloc(st, &a[0], &Val::I(16), 0xA5)?,
            B::Calloc => {
                let (x, y) = (self.concretize(st, &a[0])?, self.concretize(st, &a[1])?);
                self.do_alloc(st, &Val::I(x.wrapping_mul(y)), &Val::I(16), 0)?
            }
            B::AlignedAlloc => self.do_alloc(st, &a[1], &a[0], 0xA5)?,
            B::PosixMemalign => {
                let p = self.do_alloc(st, &a[2], &a[1], 0xA5)?;
                self.store_n(st, &a[0], 8, &p)?;
                Val::I(0)
            }
            B::Dealloc | B::Free => {
                self.do_free(st, &a[0])?;
                Val::I(0)
            }
            B::Realloc | B::CRealloc => {
                let (nsz, al) = if b == B::Realloc { (&a[3], a[2].clone()) } else { (&a[1], Val::I(16)) };
                let p = self.concretize(st, &a[0])?;
                let n = self.concretize(st, nsz)?;
                if p == 0 {
                    return Ok(Some(self.do_alloc(st, &Val::I(n), &al, 0xA5)?));
                }
                let old = match st.mem.get((p >> 32) as u32) {
                    Some(o) => o.data.len() as u64,
                    None => return un("realloc of an invalid pointer"),
                };
                let q = self.do_alloc(st, &Val::I(n), &al, 0xA5)?;
                self.copy_mem(st, &q, &Val::I(p), old.min(n))?;
                self.do_free(st, &Val::I(p))?;
                q
            }
            B::Memcpy | B::IMemcpy | B::Memmove => {
                let n = self.concretize(st, &a[2])?;
                self.copy_mem(st, &a[0], &a[1], n)?;
                a[0].clone()
            }
            B::Memset | B::IMemset => {
                let n = self.concretize(st, &a[2])?;
                let byte = match &a[1] {
                    Val::S(r) => {
                        let x = self.cx.extract(*r, 7, 0);
                        self.v(x)
                    }
                    v => v.clone(),
                };
                self.set_mem(st, &a[0], &byte, n)?;
                a[0].clone()
            }
            B::Memcmp | B::Bcmp => {
                let n = self.concretize(st, &a[2])?;
                self.cmp_bytes(st, &a[0], &a[1], n, b == B::Memcmp)?
            }
            B::Strlen => {
                let p = self.concretize(st, &a[0])?;
                let mut i = 0;
                loop {
                    let v = self.load_n(st, &Val::I(p + i), 1)?;
                    let r = self.r(&v, 8);
                    let z = self.cx.cst(8, 0);
                    let e = self.cx.bin(Op::Eq, r, z);
                    if self.decide(st, e)? {
                        break;
                    }
                    i += 1;
                }
                Val::I(i)
            }
            B::Memchr | B::Memrchr => {
                let p = self.concretize(st, &a[0])?;
                let n = self.concretize(st, &a[2])?;
                let ch = self.r(&a[1], 32);
                let ch = self.cx.extract(ch, 7, 0);
                let mut found = 0;
                for i in 0..n {
                    let k = if b == B::Memchr { i } else { n - 1 - i };
                    let v = self.load_n(st, &Val::I(p + k), 1)?;
                    let r = self.r(&v, 8);
                    let e = self.cx.bin(Op::Eq, r, ch);
                    if self.decide(st, e)? {
                        found = p + k;
                        break;
                    }
                }
                Val::I(found)
            }
            B::Getenv | B::RetZero | B::IZero => Val::I(0),
            B::RetOne => Val::I(1),
            B::RetNeg1 | B::IObjSize => Val::I(mask(rw.max(1)) as u64),
            B::Nop | B::IAssume => Val::I(0),
            B::Write => a[2].clone(),
            B::Abort => return self.panicked(st, "abort()".into()),
            B::ITrap => {
                let f = demangle(st.frames.last().unwrap().func.name);
                return self.panicked(st, format!("trap in {f}"));
            }
            B::ClockGettime => {
                st.clock += 1000;
                let t = st.clock;
                self.store_n(st, &a[1], 8, &Val::I(t / 1_000_000_000))?;
                let q = self.addv(&a[1], 8);
                self.store_n(st, &q, 8, &Val::I(t % 1_000_000_000))?;
                Val::I(0)
            }
            B::Getrandom => {
                let n = self.concretize(st, &a[1])?;
                self.set_mem(st, &a[0], &Val::I(7), n)?;
                Val::I(n)
            }
            B::Syscall => {
                let n = self.concretize(st, &a[0])?;
                match n {
                    318 => {
                        let k = self.concretize(st, &a[2])?;
                        self.set_mem(st, &a[1], &Val::I(7), k)?;
                        Val::I(k)
                    }
                    202 => return un("futex wait (deadlock or concurrency)"),
                    _ => Val::I(u64::MAX),
                }
            }
            B::HashFinish | B::HashWrite => return un("hash stub"),
            B::PanicFmt => {
                let t = self.panic_text(st, &a[0], a.last().unwrap());
                return self.panicked(st, t);
            }
            B::PanicNounwind | B::Unwind => {
                let f: Vec<String> = self.backtrace(st).into_iter().take(3).collect();
                return self.panicked(st, format!("{} from {}", demangle(self.w.fns[fid as usize].name), f.join(" < ")));
            }
            B::FmtInt | B::FmtFloat => {
                // a symbolic number prints nothing
                let Val::I(p) = &a[0] else { return Ok(Some(Val::I(0))) };
                let key = (*p >> 32) as u32;
                if st.mem.get(key).is_none() {
                    return Ok(None);
                }
                let o = st.mem.get(key).unwrap();
                let off = (*p as u32).wrapping_sub(o.base) as usize;
                let n = (o.data.len().saturating_sub(off)).min(16);
                // width from the symbol name
                let s = String::from_utf8_lossy(self.w.fns[fid as usize].name).into_owned();
                let wd = if s.contains("u20$u8$") || s.contains("u20$i8$") {
                    1
                } else if s.contains("16$GT") {
                    2
                } else if s.contains("32$GT") {
                    4
                } else if s.contains("128$GT") {
                    16
                } else {
                    8
                };
                if off <= o.data.len() && !o.all_conc(off, n.min(wd)) {
                    Val::I(0)
                } else {
                    return Ok(None);
                }
            }
            // ------------------------------------------------ harness API
            B::SymV => {
                let w = a[0].conc().unwrap() as u16;
                let r = self.fresh(st, w);
                let z = self.cx.zext(r, 64);
                self.v(z)
            }
            B::SymFill => {
                // (ptr, element bits, count)
                let p = self.concretize(st, &a[0])?;
                let w = a[1].conc().unwrap() as u16;
                let n = self.concretize(st, &a[2])?;
                for i in 0..n {
                    let r = self.fresh(st, w);
                    let r = if w < 8 { self.cx.zext(r, 8) } else { r };
                    let nb = (w as u64 / 8).max(1);
                    self.store_n(st, &Val::I(p + i * nb), nb as usize, &Val::S(r))?;
                }
                Val::I(0)
            }
            B::Choose => {
                // a value below n, every choice explored as its own path
                let n = self.concretize(st, &a[0])?;
                // idempotent under re-execution: allocate the variable once, then fork on it
                let r = self.fresh(st, 32);
                let k = self.cx.cst(32, n as u128);
                let cnd = self.cx.bin(Op::Ult, r, k);
                self.assume(st, cnd)?;
                for i in 1..n {
                    let ki = self.cx.cst(32, i as u128);
                    let e = self.cx.bin(Op::Eq, r, ki);
                    let mut sib = st.clone();
                    if let Res::Sat(m) = self.query(&sib, e) {
                        sib.model = Rc::new(m);
                        self.assume(&mut sib, e)?;
                        self.set(&mut sib, c.dst, Val::I(i));
                        sib.frames.last_mut().unwrap().ip += 1;
                        self.st.forks += 1;
                        self.work.push(sib);
                    }
                }
                let z = self.cx.cst(32, 0);
                let e = self.cx.bin(Op::Eq, r, z);
                self.assume(st, e)?;
                Val::I(0)
            }
            B::Assume => {
                let r = self.r(&a[0], self.argw(c, 0));
                let w = self.cx.w(r);
                let z = self.cx.cst(w, 0);
                let e = self.cx.bin(Op::Eq, r, z);
                let ne = self.cx.not(e);
                self.assume(st, ne)?;
                Val::I(0)
            }
            B::Assert => {
                let r = self.r(&a[0], self.argw(c, 0));
                let w = self.cx.w(r);
                let z = self.cx.cst(w, 0);
                let e = self.cx.bin(Op::Eq, r, z);
                let ne = self.cx.not(e);
                let msg = self.str_at(st, &a[1], &a[2]);
                self.check(st, ne, msg)?;
                Val::I(0)
            }
            B::Reach => {
                let id = self.concretize(st, &a[0])?;
                Rc::make_mut(&mut st.reach).push(id);
                Val::I(0)
            }
            B::Out => {
                Rc::make_mut(&mut st.outs).push(a[0].clone());
                Val::I(0)
            }
            B::AllowPanic => {
                st.allow_panic = self.concretize(st, &a[0])? & 0xff != 0;
                Val::I(0)
            }
            B::IsSym => Val::I(1),
            B::Concretize => {
                let v = self.concretize(st, &a[0])?;
                Val::I(v)
            }
            // ------------------------------------------------ intrinsics
            B::IUadd | B::ISadd | B::IUsub | B::ISsub | B::IUmul | B::ISmul => {
                let w = self.argw(c, 0);
                let (x, y) = (self.r(&a[0], w), self.r(&a[1], w));
                // constant operand last for the multiplication shortcuts
                let (x, y) = if matches!(b, B::IUmul | B::ISmul) && self.cx.as_const(x).is_some() { (y, x) } else { (x, y) };
                let (s, o) = self.overflow(b, w, x, y);
                self.pair(s, o)
            }
            B::IUaddSat | B::IUsubSat | B::ISaddSat | B::ISsubSat => {
                let w = self.argw(c, 0);
                self.lanes2(&a[0], &a[1], &mut |s, p, q| {
                    let (x, y) = (s.r(p, w), s.r(q, w));
                    let kind = match b {
                        B::IUaddSat => B::IUadd,
                        B::IUsubSat => B::IUsub,
                        B::ISaddSat => B::ISadd,
                        _ => B::ISsub,
                    };
                    let (v, o) = s.overflow(kind, w, x, y);
                    let sat = match b {
                        B::IUaddSat => s.cx.cst(w, mask(w)),
                        B::IUsubSat => s.cx.cst(w, 0),
                        _ => {
                            let sx = s.cx.extract(x, w - 1, w - 1);
                            let mn = s.cx.cst(w, 1u128 << (w - 1));
                            let mx = s.cx.cst(w, mask(w) >> 1);
                            s.cx.ite(sx, mn, mx)
                        }
                    };
                    let r = s.cx.ite(o, sat, v);
                    Ok(s.v(r))
                })?
            }
            B::IUmin | B::IUmax | B::ISmin | B::ISmax => {
                let w = self.argw(c, 0);
                self.lanes2(&a[0], &a[1], &mut |s, p, q| Ok(s.minmax(b, w, p, q)))?
            }
            B::IFshl | B::IFshr => {
                let w = self.argw(c, 0);
                let one = |s: &mut Engine, x: &Val, y: &Val, z: &Val| -> R<Val> {
                    let (hi, lo, sh) = (s.r(x, w), s.r(y, w), s.r(z, w));
                    let r = match s.cx.as_const(sh) {
                        Some(k) => {
                            let k = (k % w as u128) as u16;
                            if b == B::IFshl {
                                if k == 0 {
                                    hi
                                } else {
                                    let p = s.cx.extract(hi, w - 1 - k, 0);
                                    let q = s.cx.extract(lo, w - 1, w - k);
                                    s.cx.concat(p, q)
                                }
                            } else if k == 0 {
                                lo
                            } else {
                                let p = s.cx.extract(hi, k - 1, 0);
                                let q = s.cx.extract(lo, w - 1, k);
                                s.cx.concat(p, q)
                            }
                        }
                        None => {
                            let wk = s.cx.cst(w, w as u128);
                            let k = s.cx.bin(Op::URem, sh, wk);
                            let inv = s.cx.bin(Op::Sub, wk, k);
                            // shifting by w yields 0 in the SMT semantics, which is what is needed at k = 0
                            let (p, q) = if b == B::IFshl {
                                (s.cx.bin(Op::Shl, hi, k), s.cx.bin(Op::LShr, lo, inv))
                            } else {
                                (s.cx.bin(Op::Shl, hi, inv), s.cx.bin(Op::LShr, lo, k))
                            };
                            s.cx.bin(Op::Or, p, q)
                        }
                    };
                    Ok(s.v(r))
                };
                match (&a[0], &a[1], &a[2]) {
                    (Val::A(x), Val::A(y), Val::A(z)) => {
                        let mut out = vec![];
                        for i in 0..x.len() {
                            out.push(one(self, &x[i], &y[i], &z[i])?);
                        }
                        Val::A(Rc::new(out))
                    }
                    (x, y, z) => one(self, x, y, z)?,
                }
            }
            B::ICtpop | B::ICtlz | B::ICttz | B::IBswap | B::IBitrev => {
                let w = self.argw(c, 0);
                self.lanes1(&a[0], &mut |s, x| {
                    let r = s.r(x, w);
                    let r = s.bits1(b, w, r);
                    Ok(s.v(r))
                })?
            }
            B::IAbs => {
                let w = self.argw(c, 0);
                self.lanes1(&a[0], &mut |s, x| {
                    let r = s.r(x, w);
                    let z = s.cx.cst(w, 0);
                    let n = s.cx.bin(Op::Slt, r, z);
                    let m = s.cx.bin(Op::Sub, z, r);
                    let r = s.cx.ite(n, m, r);
                    Ok(s.v(r))
                })?
            }
            B::IFabs => {
                let w = self.argw(c, 0);
                self.lanes1(&a[0], &mut |s, x| {
                    let r = s.r(x, w);
                    let k = s.cx.cst(w, mask(w) >> 1);
                    let r = s.cx.bin(Op::And, r, k);
                    Ok(s.v(r))
                })?
            }
            B::ICopysign => {
                let w = self.argw(c, 0);
                let (x, y) = (self.r(&a[0], w), self.r(&a[1], w));
                let sg = self.cx.extract(y, w - 1, w - 1);
                let m = self.cx.extract(x, w - 2, 0);
                let r = self.cx.concat(sg, m);
                self.v(r)
            }
            B::ISqrt => self.fmath(Op::FSqrt, &a[0], self.argw(c, 0))?,
            B::IFloor => self.fmath(Op::FFloor, &a[0], self.argw(c, 0))?,
            B::ICeil => self.fmath(Op::FCeil, &a[0], self.argw(c, 0))?,
            B::ITrunc => self.fmath(Op::FTrunc, &a[0], self.argw(c, 0))?,
            B::IRint => self.fmath(Op::FRint, &a[0], self.argw(c, 0))?,
            B::IRound => self.fmath(Op::FRound, &a[0], self.argw(c, 0))?,
            B::IExp => self.fmath(Op::FExp, &a[0], self.argw(c, 0))?,
            B::ILog | B::ILog2 | B::ILog10 => {
                let w = self.argw(c, 0);
                let x = self.r(&a[0], w);
                let tag = self.cx.cst(w, match b { B::ILog => 0, B::ILog2 => 2, _ => 10 });
                let r = self.cx.fp(Op::FLog, w, x, tag, 0);
                self.v(r)
            }
            B::IMinnum | B::IMaxnum | B::IPow => {
                let w = self.argw(c, 0);
                let op = match b { B::IMinnum => Op::FMin, B::IMaxnum => Op::FMax, _ => Op::FPow };
                self.lanes2(&a[0], &a[1], &mut |s, x, y| {
                    let (x, y) = (s.r(x, w), s.r(y, w));
                    let r = s.cx.fp(op, w, x, y, 0);
                    Ok(s.v(r))
                })?
            }
            B::IPowi => {
                let w = self.argw(c, 0);
                let (Some(x), Some(n)) = (a[0].conc(), a[1].conc()) else { return un("symbolic powi") };
                let n = n as u32 as i32;
                let r = match w {
                    64 => f64::from_bits(x as u64).powi(n).to_bits() as u128,
                    _ => f32::from_bits(x as u32).powi(n).to_bits() as u128,
                };
                Val::from_u128(w, r)
            }
            B::IFma => {
                let w = self.argw(c, 0);
                let (x, y, z) = (self.r(&a[0], w), self.r(&a[1], w), self.r(&a[2], w));
                let r = self.cx.fp(Op::FFma, w, x, y, z);
                self.v(r)
            }
            B::IFpToSiSat | B::IFpToUiSat => {
                let w = self.argw(c, 0);
                let op = if b == B::IFpToSiSat { Op::FToSI } else { Op::FToUI };
                self.lanes1(&a[0], &mut |s, x| {
                    let r = s.r(x, w);
                    let r = s.cx.fp(op, rw, r, 0, 0);
                    Ok(s.v(r))
                })?
            }
            B::IFpClass => {
                let w = self.argw(c, 0);
                let m = a[1].conc().unwrap() as u32;
                let x = self.r(&a[0], w);
                let r = self.fpclass(x, w, m);
                self.v(r)
            }
            B::IArg0 => a[0].clone(),
            B::IPtrMask => {
                let (x, y) = (self.r(&a[0], 64), self.r(&a[1], 64));
                let r = self.cx.bin(Op::And, x, y);
                self.v(r)
            }
            B::ILoadRel => {
                // ptr + sext(load i32 (ptr + off)); table entries are interned differences
                let base = self.concretize(st, &a[0])?;
                let ow = self.argw(c, 1);
                let off = match &a[1] {
                    Val::I(x) => sext(*x as u128, ow) as i64 as u64,
                    v => {
                        let x = self.concretize(st, v)?;
                        sext(x as u128, ow) as i64 as u64
                    }
                };
                let v = self.load_n(st, &Val::I(base.wrapping_add(off)), 4)?;
                let v = self.concretize(st, &v)?;
                if v >> 24 == 0x5A {
                    Val::I(base.wrapping_add(self.w.reltab[(v & 0xff_ffff) as usize]))
                } else {
                    Val::I(base.wrapping_add(v as u32 as i32 as i64 as u64))
                }
            }
            B::IAddCarry | B::ISubBorrow => {
                let (ci, x, y) = (self.r(&a[0], 8), self.r(&a[1], 64), self.r(&a[2], 64));
                let z8 = self.cx.cst(8, 0);
                let nz = self.cx.bin(Op::Eq, ci, z8);
                let cb = self.cx.not(nz);
                let (c65, x, y) = (self.cx.zext(cb, 65), self.cx.zext(x, 65), self.cx.zext(y, 65));
                let op = if b == B::IAddCarry { Op::Add } else { Op::Sub };
                let s = self.cx.bin(op, x, y);
                let s = self.cx.bin(op, s, c65);
                let o = self.cx.extract(s, 64, 64);
                let o = self.cx.zext(o, 8);
                let lo = self.cx.extract(s, 63, 0);
                self.pair(o, lo)
            }
            B::IScmp | B::IUcmp => {
                let w = self.argw(c, 0);
                let (x, y) = (self.r(&a[0], w), self.r(&a[1], w));
                let op = if b == B::IScmp { Op::Slt } else { Op::Ult };
                let lt = self.cx.bin(op, x, y);
                let gt = self.cx.bin(op, y, x);
                let (m, z, o) = (self.cx.cst(rw, mask(rw)), self.cx.cst(rw, 0), self.cx.cst(rw, 1));
                let r = self.cx.ite(gt, o, z);
                let r = self.cx.ite(lt, m, r);
                self.v(r)
            }
            B::IRedAdd | B::IRedAnd | B::IRedOr | B::IRedXor | B::IRedMul | B::IRedUmax | B::IRedUmin | B::IRedSmax
            | B::IRedSmin => {
                let Val::A(v) = &a[0] else { return un("reduce") };
                let w = rw;
                let mut acc = v[0].clone();
                for e in v[1..].iter() {
                    acc = match b {
                        B::IRedUmax => self.minmax(B::IUmax, w, &acc, e),
                        B::IRedUmin => self.minmax(B::IUmin, w, &acc, e),
                        B::IRedSmax => self.minmax(B::ISmax, w, &acc, e),
                        B::IRedSmin => self.minmax(B::ISmin, w, &acc, e),
                        _ => {
                            let op = match b {
                                B::IRedAdd => Op::Add,
                                B::IRedAnd => Op::And,
                                B::IRedOr => Op::Or,
                                B::IRedXor => Op::Xor,
                                _ => Op::Mul,
                            };
                            let (x, y) = (self.r(&acc, w), self.r(e, w));
                            let r = self.cx.bin(op, x, y);
                            self.v(r)
                        }
                    };
                }
                acc
            }
            B::IPsadbw => {
                let (Val::A(x), Val::A(y)) = (&a[0], &a[1]) else { return un("psadbw") };
                let mut out = vec![];
                for h in 0..2 {
                    let mut acc = self.cx.cst(64, 0);
                    for i in 0..8 {
                        let (p, q) = (self.r(&x[h * 8 + i], 8), self.r(&y[h * 8 + i], 8));
                        let lt = self.cx.bin(Op::Ult, p, q);
                        let d1 = self.cx.bin(Op::Sub, p, q);
                        let d2 = self.cx.bin(Op::Sub, q, p);
                        let d = self.cx.ite(lt, d2, d1);
                        let d = self.cx.zext(d, 64);
                        acc = self.cx.bin(Op::Add, acc, d);
                    }
                    out.push(self.v(acc));
                }
                Val::A(Rc::new(out))
            }
            B::IMovmsk => {
                let Val::A(x) = &a[0] else { return un("movmsk") };
                let mut acc = None;
                for e in x.iter() {
                    let r = self.r(e, 8);
                    let bit = self.cx.extract(r, 7, 7);
                    acc = Some(match acc {
                        None => bit,
                        Some(l) => self.cx.concat(bit, l),
                    });
                }
                let r = self.cx.zext(acc.unwrap(), 32);
                self.v(r)
            }
            B::LMath1 | B::LMath2 => {
                let name = String::from_utf8_lossy(self.w.fns[fid as usize].name).into_owned();
                let w = self.argw(c, 0);
                let base = name.strip_suffix('f').filter(|_| w == 32).unwrap_or(&name);
                let x = self.r(&a[0], w);
                let y = if b == B::LMath2 { self.r(&a[1], w) } else { 0 };
                let (op, y) = match base {
                    "floor" => (Op::FFloor, 0),
                    "ceil" => (Op::FCeil, 0),
                    "trunc" => (Op::FTrunc, 0),
                    "round" => (Op::FRound, 0),
                    "rint" | "nearbyint" | "roundeven" => (Op::FRint, 0),
                    "sqrt" => (Op::FSqrt, 0),
                    "exp" => (Op::FExp, 0),
                    "log" => (Op::FLog, self.cx.cst(w, 0)),
                    "log2" => (Op::FLog, self.cx.cst(w, 2)),
                    "log10" => (Op::FLog, self.cx.cst(w, 10)),
                    "fmod" => (Op::FRem, y),
                    "pow" => (Op::FPow, y),
                    "fmin" => (Op::FMin, y),
                    "fmax" => (Op::FMax, y),
                    _ => return un(&name),
                };
                let r = self.cx.fp(op, w, x, y, 0);
                self.v(r)
            }
            B::IUshlSat | B::ISin => return un("intrinsic"),
        }))
    }
    fn argw(&self, c: &CallI, i: usize) -> u16 {
        self.w.wl(c.tys[i]).0
    }
    fn minmax(&mut self, b: B, w: u16, p: &Val, q: &Val) -> Val {
        let (x, y) = (self.r(p, w), self.r(q, w));
        let c = match b {
            B::IUmin => self.cx.bin(Op::Ult, x, y),
            B::IUmax => self.cx.bin(Op::Ult, y, x),
            B::ISmin => self.cx.bin(Op::Slt, x, y),
            _ => self.cx.bin(Op::Slt, y, x),
        };
        let r = self.cx.ite(c, x, y);
        self.v(r)
    }
    fn fpclass(&mut self, x: Ref, w: u16, m: u32) -> Ref {
        let (ebits, mbits) = match w {
            64 => (11u16, 52u16),
            32 => (8, 23),
            _ => (5, 10),
        };
        let cx = &mut self.cx;
        let sg = cx.extract(x, w - 1, w - 1);
        let pos = cx.not(sg);
        let e = cx.extract(x, w - 2, mbits);
        let f = cx.extract(x, mbits - 1, 0);
        let (ez, fz) = (cx.cst(ebits, 0), cx.cst(mbits, 0));
        let eo = cx.cst(ebits, mask(ebits));
        let e0 = cx.bin(Op::Eq, e, ez);
        let e1 = cx.bin(Op::Eq, e, eo);
        let f0 = cx.bin(Op::Eq, f, fz);
        let ne0 = cx.not(e0);
        let ne1 = cx.not(e1);
        let nf0 = cx.not(f0);
        let q = cx.extract(f, mbits - 1, mbits - 1);
        let nq = cx.not(q);
        let nan = cx.bin(Op::And, e1, nf0);
        let snan = cx.bin(Op::And, nan, nq);
        let qnan = cx.bin(Op::And, nan, q);
        let inf = cx.bin(Op::And, e1, f0);
        let norm = cx.bin(Op::And, ne0, ne1);
        let sub = cx.bin(Op::And, e0, nf0);
        let zero = cx.bin(Op::And, e0, f0);
        let classes = [
            (snan, None),
            (qnan, None),
            (inf, Some(sg)),
            (norm, Some(sg)),
            (sub, Some(sg)),
            (zero, Some(sg)),
            (zero, Some(pos)),
            (sub, Some(pos)),
            (norm, Some(pos)),
            (inf, Some(pos)),
        ];
        let mut acc = cx.fls;
        for (i, (c, s)) in classes.into_iter().enumerate() {
            if m >> i & 1 == 1 {
                let t = match s {
                    Some(s) => cx.bin(Op::And, c, s),
                    None => c,
                };
                acc = cx.bin(Op::Or, acc, t);
            }
        }
        acc
    }
}
