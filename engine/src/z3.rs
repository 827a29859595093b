//! Minimal FFI binding to the z3 C API and the solver front end (slicing, caching, FP refinement).
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_sort_to_ast(c: P, s: P) -> P;
    fn Z3_func_decl_to_ast(c: P, s: P) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, rng: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, args: *const P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_tactic_and_then(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> i32;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, e: c_int) {
    // canceled / memout are handled through unknown results; anything else is an encoding bug
    eprintln!("vsx: z3 error code {e}");
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}

pub struct Solver {
    z: P,
    sorts: HashMap<u16, P>,
    memo: HashMap<Ref, P>, // bit-vector (or bool for width 1) translation
    memo_fp: HashMap<Ref, P>,
    ufs: HashMap<(u8, u16, u16), P>,
    pub cache: HashMap<Vec<Ref>, Res>,
    logic_bv: P,
    tactic: P,
    logic_uf: P,
    logic_fp: P,
    params: P,
    pub queries: u64,
    pub cache_hits: u64,
    pub micros: u64,
    pub unknowns: u64,
    pub timeout_ms: u32,
    inc: P,
    lits: HashMap<Ref, P>,
    inc_max: usize,
    pub dump_dir: Option<String>,
    pub dump_every: u64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let z = Z3_mk_context(cfg);
            Z3_set_error_handler(z, on_err);
            let sym = |s: &str| {
                let c = CString::new(s).unwrap();
                Z3_mk_string_symbol(z, c.as_ptr())
            };
            let params = Z3_mk_params(z);
            Z3_params_inc_ref(z, params);
            Z3_params_set_uint(z, params, sym("rlimit"), timeout_ms);
            let tac = |s: &str| {
                let c = CString::new(s).unwrap();
                let t = Z3_mk_tactic(z, c.as_ptr());
                Z3_tactic_inc_ref(z, t);
                t
            };
            let mut tactic = tac("simplify");
            for n in ["solve-eqs", "bit-blast", "aig", "sat"] {
                let t = tac(n);
                tactic = Z3_tactic_and_then(z, tactic, t);
                Z3_tactic_inc_ref(z, tactic);
            }
            Solver {
                tactic,
                z,
                sorts: HashMap::new(),
                memo: HashMap::new(),
                memo_fp: HashMap::new(),
                ufs: HashMap::new(),
                cache: HashMap::new(),
                logic_bv: sym("QF_BV"),
                logic_uf: sym("QF_UFBV"),
                logic_fp: sym("QF_FPBV"),
                params,
                queries: 0,
                cache_hits: 0,
                micros: 0,
                unknowns: 0,
                timeout_ms,
                inc: std::ptr::null_mut(),
                lits: HashMap::new(),
                inc_max: std::env::var("VSX_INC").ok().and_then(|x| x.parse().ok()).unwrap_or(0),
                dump_dir: None,
                dump_every: 0,
            }
        }
    }
    fn sort(&mut self, w: u16) -> P {
        let z = self.z;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(z, w as c_uint);
            Z3_inc_ref(z, Z3_sort_to_ast(z, s));
            s
        })
    }
    fn num(&mut self, w: u16, v: u128) -> P {
        let s = self.sort(w);
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.z, v as u64, s)
            } else {
                let c = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.z, c.as_ptr(), s)
            }
        }
    }
    /// width-1 expressions are represented as booleans in z3
    fn tr(&mut self, cx: &Ctx, root: Ref, fp: bool) -> P {
        let mut stack = vec![root];
        while let Some(&r) = stack.last() {
            let done = if fp { self.memo_fp.contains_key(&r) } else { self.memo.contains_key(&r) };
            if done {
                stack.pop();
                continue;
            }
            let n = cx.n(r);
            let kids: [u32; 3] = match n.op {
                Op::Const | Op::Var => [0, 0, 0],
                Op::Extract => [n.a, 0, 0],
                _ => [n.a, n.b, n.c],
            };
            let mut pend = false;
            for k in kids {
                if k != 0 {
                    let have = if fp { self.memo_fp.contains_key(&k) } else { self.memo.contains_key(&k) };
                    if !have {
                        stack.push(k);
                        pend = true;
                    }
                }
            }
            if pend {
                continue;
            }
            let get = |s: &Self, k: u32| -> P {
                if k == 0 {
                    std::ptr::null_mut()
                } else if fp {
                    s.memo_fp[&k]
                } else {
                    s.memo[&k]
                }
            };
            let (a, b, c) = (
                get(self, kids[0]),
                get(self, kids[1]),
                get(self, kids[2]),
            );
            let p = self.tr1(cx, n, a, b, c, fp);
            unsafe { Z3_inc_ref(self.z, p) };
            if fp {
                self.memo_fp.insert(r, p);
            } else {
                self.memo.insert(r, p);
            }
            stack.pop();
        }
        if fp {
            self.memo_fp[&root]
        } else {
            self.memo[&root]
        }
    }
    fn b2v(&mut self, p: P) -> P {
        let o = self.num(1, 1);
        let z = self.num(1, 0);
        unsafe { Z3_mk_ite(self.z, p, o, z) }
    }
    fn v2b(&mut self, p: P) -> P {
        let o = self.num(1, 1);
        unsafe { Z3_mk_eq(self.z, p, o) }
    }
    fn tr1(&mut self, cx: &Ctx, n: Node, a: P, b: P, c: P, fp: bool) -> P {
        let z = self.z;
        unsafe {
            match n.op {
                Op::Const => {
                    let v = cx.consts[n.a as usize];
                    if n.w == 1 {
                        if v == 1 {
                            Z3_mk_true(z)
                        } else {
                            Z3_mk_false(z)
                        }
                    } else {
                        self.num(n.w, v)
                    }
                }
                Op::Var => {
                    let name = CString::new(format!("v{}_{}", n.a, n.w)).unwrap();
                    let s = self.sort(n.w);
                    let p = Z3_mk_const(z, Z3_mk_string_symbol(z, name.as_ptr()), s);
                    if n.w == 1 {
                        self.v2b(p)
                    } else {
                        p
                    }
                }
                _ => {
                    let aw = cx.w(n.a);
                    if aw == 1 {
                        // boolean operands
                        match n.op {
                            Op::Not => return Z3_mk_not(z, a),
                            Op::And => return Z3_mk_and(z, 2, [a, b].as_ptr()),
                            Op::Or => return Z3_mk_or(z, 2, [a, b].as_ptr()),
                            Op::Xor | Op::Add | Op::Sub => return Z3_mk_xor(z, a, b),
                            Op::Mul => return Z3_mk_and(z, 2, [a, b].as_ptr()),
                            Op::Eq => return Z3_mk_eq(z, a, b),
                            Op::Ite => return Z3_mk_ite(z, a, b, c),
                            Op::Ult => return Z3_mk_and(z, 2, [Z3_mk_not(z, a), b].as_ptr()),
                            Op::Ule => return Z3_mk_or(z, 2, [Z3_mk_not(z, a), b].as_ptr()),
                            Op::Slt => return Z3_mk_and(z, 2, [a, Z3_mk_not(z, b)].as_ptr()),
                            Op::Sle => return Z3_mk_or(z, 2, [a, Z3_mk_not(z, b)].as_ptr()),
                            _ => {}
                        }
                    }
                    let av = if aw == 1 && n.op != Op::Ite { self.b2v(a) } else { a };
                    let bv = if !b.is_null() && cx.w(n.b) == 1 && !matches!(n.op, Op::Ite | Op::Extract) {
                        self.b2v(b)
                    } else {
                        b
                    };
                    let (a, b) = (av, bv);
                    let res = match n.op {
                        Op::Not => Z3_mk_bvnot(z, a),
                        Op::Add => Z3_mk_bvadd(z, a, b),
                        Op::Sub => Z3_mk_bvsub(z, a, b),
                        Op::Mul => Z3_mk_bvmul(z, a, b),
                        Op::UDiv => Z3_mk_bvudiv(z, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(z, a, b),
                        Op::URem => Z3_mk_bvurem(z, a, b),
                        Op::SRem => Z3_mk_bvsrem(z, a, b),
                        Op::Shl => Z3_mk_bvshl(z, a, b),
                        Op::LShr => Z3_mk_bvlshr(z, a, b),
                        Op::AShr => Z3_mk_bvashr(z, a, b),
                        Op::And => Z3_mk_bvand(z, a, b),
                        Op::Or => Z3_mk_bvor(z, a, b),
                        Op::Xor => Z3_mk_bvxor(z, a, b),
                        Op::Eq => Z3_mk_eq(z, a, b),
                        Op::Ult => Z3_mk_bvult(z, a, b),
                        Op::Ule => Z3_mk_bvule(z, a, b),
                        Op::Slt => Z3_mk_bvslt(z, a, b),
                        Op::Sle => Z3_mk_bvsle(z, a, b),
                        Op::Ite => Z3_mk_ite(z, a, b, c),
                        Op::Concat => Z3_mk_concat(z, a, b),
                        Op::Extract => {
                            let e = Z3_mk_extract(z, n.b + n.w as u32 - 1, n.b, a);
                            if n.w == 1 {
                                self.v2b(e)
                            } else {
                                e
                            }
                        }
                        Op::ZExt => Z3_mk_zero_ext(z, (n.w - aw) as c_uint, a),
                        Op::SExt => Z3_mk_sign_ext(z, (n.w - aw) as c_uint, a),
                        _ if fp => self.tr_fp(cx, n, aw, a, b),
                        _ => self.tr_uf(n, aw, a, b, c),
                    };
                    if n.w == 1
                        && !matches!(
                            n.op,
                            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::Ite | Op::Extract
                        )
                    {
                        self.v2b(res)
                    } else {
                        res
                    }
                }
            }
        }
    }
    fn tr_uf(&mut self, n: Node, aw: u16, a: P, b: P, c: P) -> P {
        let z = self.z;
        let key = (n.op as u8, n.w, aw);
        let nargs = 1 + (!b.is_null()) as usize + (!c.is_null()) as usize;
        let d = match self.ufs.get(&key) {
            Some(d) => *d,
            None => unsafe {
                let name = CString::new(format!("fp_{}_{}_{}", n.op as u8, n.w, aw)).unwrap();
                let dom: Vec<P> = (0..nargs).map(|_| self.sort(aw)).collect();
                let rng = self.sort(n.w);
                let d = Z3_mk_func_decl(
                    z,
                    Z3_mk_string_symbol(z, name.as_ptr()),
                    nargs as c_uint,
                    dom.as_ptr(),
                    rng,
                );
                Z3_inc_ref(z, Z3_func_decl_to_ast(z, d));
                self.ufs.insert(key, d);
                d
            },
        };
        let args: Vec<P> = [a, b, c].into_iter().filter(|p| !p.is_null()).collect();
        unsafe { Z3_mk_app(z, d, args.len() as c_uint, args.as_ptr()) }
    }
    /// exact translation into the floating-point theory (NaN payloads are left unspecified by z3)
    fn tr_fp(&mut self, _cx: &Ctx, n: Node, aw: u16, a: P, b: P) -> P {
        let z = self.z;
        unsafe {
            let fs = |w: u16| match w {
                64 => Z3_mk_fpa_sort(z, 11, 53),
                32 => Z3_mk_fpa_sort(z, 8, 24),
                _ => Z3_mk_fpa_sort(z, 5, 11),
            };
            let rne = Z3_mk_fpa_rne(z);
            let fa = |p: P, w: u16| Z3_mk_fpa_to_fp_bv(z, p, fs(w));
            let r = match n.op {
                Op::FAdd => Z3_mk_fpa_add(z, rne, fa(a, aw), fa(b, aw)),
                Op::FSub => Z3_mk_fpa_sub(z, rne, fa(a, aw), fa(b, aw)),
                Op::FMul => Z3_mk_fpa_mul(z, rne, fa(a, aw), fa(b, aw)),
                Op::FDiv => Z3_mk_fpa_div(z, rne, fa(a, aw), fa(b, aw)),
                Op::FSqrt => Z3_mk_fpa_sqrt(z, rne, fa(a, aw)),
                Op::FFloor => Z3_mk_fpa_round_to_integral(z, Z3_mk_fpa_rtn(z), fa(a, aw)),
                Op::FCeil => Z3_mk_fpa_round_to_integral(z, Z3_mk_fpa_rtp(z), fa(a, aw)),
                Op::FTrunc => Z3_mk_fpa_round_to_integral(z, Z3_mk_fpa_rtz(z), fa(a, aw)),
                Op::FRint => Z3_mk_fpa_round_to_integral(z, rne, fa(a, aw)),
                Op::FRound => Z3_mk_fpa_round_to_integral(z, Z3_mk_fpa_rna(z), fa(a, aw)),
                Op::FCvt => Z3_mk_fpa_to_fp_float(z, rne, fa(a, aw), fs(n.w)),
                Op::SIToF => Z3_mk_fpa_to_fp_signed(z, rne, a, fs(n.w)),
                Op::UIToF => Z3_mk_fpa_to_fp_unsigned(z, rne, a, fs(n.w)),
                _ => return self.tr_uf(n, aw, a, b, std::ptr::null_mut()),
            };
            Z3_mk_fpa_to_ieee_bv(z, r)
        }
    }

    pub fn cached(&mut self, cs: &[Ref]) -> Option<Res> {
        let mut key: Vec<Ref> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        let r = self.cache.get(&key).cloned();
        if r.is_some() {
            self.cache_hits += 1;
        }
        r
    }
    /// Satisfiability of a conjunction. `cs` must be deduplicated.
    pub fn check(&mut self, cx: &mut Ctx, cs: &[Ref]) -> Res {
        let mut key: Vec<Ref> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if key.is_empty() {
            return Res::Sat(Model::default());
        }
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let r = self.check_uncached(cx, &key);
        if !matches!(r, Res::Unknown) {
            self.cache.insert(key, r.clone());
        }
        r
    }

    fn fp_nodes(&self, cx: &Ctx, cs: &[Ref]) -> Vec<Ref> {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<Ref> = cs.to_vec();
        let mut out = vec![];
        while let Some(r) = st.pop() {
            if !seen.insert(r) {
                continue;
            }
            let n = cx.n(r);
            if is_fp(n.op) {
                out.push(r);
            }
            match n.op {
                Op::Const | Op::Var => {}
                Op::Extract => st.push(n.a),
                _ => {
                    for k in [n.a, n.b, n.c] {
                        if k != 0 {
                            st.push(k)
                        }
                    }
                }
            }
        }
        out.sort_unstable();
        out
    }

    fn check_uncached(&mut self, cx: &mut Ctx, cs: &[Ref]) -> Res {
        let t0 = std::time::Instant::now();
        let fps = self.fp_nodes(cx, cs);
        let mut lemmas: Vec<Ref> = vec![];
        let mut iters = 0;
        let r = loop {
            self.queries += 1;
            let mut all: Vec<Ref> = cs.to_vec();
            all.extend_from_slice(&lemmas);
            let logic = if fps.is_empty() { self.logic_bv } else { self.logic_uf };
            let res = self.raw(cx, &all, logic, false, cs);
            match res {
                Res::Sat(m) if !fps.is_empty() => {
                    cx.eval_begin();
                    let ok = cs.iter().all(|&c| cx.eval_in(c, &m) == 1);
                    if ok {
                        break Res::Sat(m);
                    }
                    // refine: pin every FP application at the argument values of this model
                    let mut added = false;
                    for &f in &fps {
                        let n = cx.n(f);
                        let av = cx.eval(n.a, &m);
                        let bv = if n.b != 0 { cx.eval(n.b, &m) } else { 0 };
                        let cv = if n.c != 0 { cx.eval(n.c, &m) } else { 0 };
                        let val = fp_eval(n.op, n.w, cx.w(n.a), av, bv, cv);
                        let mut guard = {
                            let k = cx.cst(cx.w(n.a), av);
                            cx.bin(Op::Eq, n.a, k)
                        };
                        if n.b != 0 {
                            let k = cx.cst(cx.w(n.b), bv);
                            let e = cx.bin(Op::Eq, n.b, k);
                            guard = cx.bin(Op::And, guard, e);
                        }
                        if n.c != 0 {
                            let k = cx.cst(cx.w(n.c), cv);
                            let e = cx.bin(Op::Eq, n.c, k);
                            guard = cx.bin(Op::And, guard, e);
                        }
                        let k = cx.cst(n.w, val);
                        let e = cx.bin(Op::Eq, f, k);
                        let ng = cx.not(guard);
                        let l = cx.bin(Op::Or, ng, e);
                        if l != cx.tru && !lemmas.contains(&l) {
                            lemmas.push(l);
                            added = true;
                        }
                    }
                    iters += 1;
                    if !added || iters > 24 {
                        // exact floating point theory
                        let lf = self.logic_fp;
                        self.queries += 1;
                        let r = self.raw(cx, cs, lf, true, cs);
                        if let Res::Sat(m) = &r {
                            cx.eval_begin();
                            if !cs.iter().all(|&c| cx.eval_in(c, m) == 1) {
                                break Res::Unknown;
                            }
                        }
                        break r;
                    }
                }
                r => break r,
            }
        };
        let dt = t0.elapsed().as_micros() as u64;
        self.micros += dt;
        if dt > 100_000 && std::env::var("VSX_SLOW").is_ok() {
            eprintln!("slow query {} ms, {} constraints, fp {}", dt / 1000, cs.len(), fps.len());
        }
        if matches!(r, Res::Unknown) {
            self.unknowns += 1;
        }
        r
    }
    fn raw(&mut self, cx: &mut Ctx, cs: &[Ref], logic: P, fp: bool, orig: &[Ref]) -> Res {
        unsafe {
            let incremental = logic == self.logic_bv && self.inc_max > 0 && self.dump_dir.is_none();
            let s;
            let mut assume: Vec<P> = vec![];
            if incremental {
                if !self.inc.is_null() && self.lits.len() > self.inc_max {
                    Z3_solver_dec_ref(self.z, self.inc);
                    self.inc = std::ptr::null_mut();
                }
                if self.inc.is_null() {
                    self.lits.clear();
                    self.inc = Z3_mk_solver_for_logic(self.z, logic);
                    Z3_solver_inc_ref(self.z, self.inc);
                    Z3_solver_set_params(self.z, self.inc, self.params);
                    Z3_solver_push(self.z, self.inc);
                }
                s = self.inc;
                Z3_solver_inc_ref(self.z, s);
                for &c in cs {
                    let l = match self.lits.get(&c) {
                        Some(l) => *l,
                        None => {
                            let p = self.tr(cx, c, fp);
                            let name = CString::new(format!("l{c}")).unwrap();
                            let b = Z3_mk_const(
                                self.z,
                                Z3_mk_string_symbol(self.z, name.as_ptr()),
                                Z3_mk_bool_sort(self.z),
                            );
                            Z3_inc_ref(self.z, b);
                            let imp = Z3_mk_or(self.z, 2, [Z3_mk_not(self.z, b), p].as_ptr());
                            Z3_solver_assert(self.z, s, imp);
                            self.lits.insert(c, b);
                            b
                        }
                    };
                    assume.push(l);
                }
            } else {
                s = if logic == self.logic_bv {
                    Z3_mk_solver_from_tactic(self.z, self.tactic)
                } else {
                    Z3_mk_solver_for_logic(self.z, logic)
                };
                Z3_solver_inc_ref(self.z, s);
                Z3_solver_set_params(self.z, s, self.params);
                for &c in cs {
                    let p = self.tr(cx, c, fp);
                    Z3_solver_assert(self.z, s, p);
                }
            }
            if let Some(d) = &self.dump_dir {
                if self.dump_every > 0 && self.queries % self.dump_every == 0 && !fp {
                    let txt = CStr::from_ptr(Z3_solver_to_string(self.z, s)).to_string_lossy().into_owned();
                    let f = format!("{d}/q{}_{}.smt2", std::process::id(), self.queries);
                    let r = Z3_solver_check(self.z, s);
                    let _ = std::fs::write(
                        f,
                        format!(
                            "(set-logic {})\n(set-info :status {})\n{}\n(check-sat)\n",
                            if logic == self.logic_bv { "QF_BV" } else { "QF_UFBV" },
                            match r {
                                1 => "sat",
                                -1 => "unsat",
                                _ => "unknown",
                            },
                            txt
                        ),
                    );
                }
            }
            let r = if incremental {
                Z3_solver_check_assumptions(self.z, s, assume.len() as c_uint, assume.as_ptr())
            } else {
                Z3_solver_check(self.z, s)
            };
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.z, s);
                    Z3_model_inc_ref(self.z, m);
                    let mut vars: Vec<u32> = vec![];
                    for &c in orig {
                        vars.extend(cx.support(c).iter());
                    }
                    vars.sort_unstable();
                    vars.dedup();
                    let mut model = Model::default();
                    for v in vars {
                        let w = cx.var_w[&v];
                        let name = CString::new(format!("v{}_{}", v, w)).unwrap();
                        let srt = self.sort(w);
                        let p = Z3_mk_const(self.z, Z3_mk_string_symbol(self.z, name.as_ptr()), srt);
                        Z3_inc_ref(self.z, p);
                        let mut val: P = std::ptr::null_mut();
                        if Z3_model_eval(self.z, m, p, true, &mut val) {
                            Z3_inc_ref(self.z, val);
                            let st = CStr::from_ptr(Z3_get_numeral_string(self.z, val));
                            let x: u128 = st.to_str().unwrap().parse().unwrap_or(0);
                            model.insert(v, x);
                            Z3_dec_ref(self.z, val);
                        }
                        Z3_dec_ref(self.z, p);
                    }
                    Z3_model_dec_ref(self.z, m);
                    Res::Sat(model)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(self.z, s);
            out
        }
    }
}
