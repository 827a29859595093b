//! The symbolic executor: states, forking, memory access and the instruction interpreter.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub func: &'static Func,
    pub regs: Vec<Val>,
    pub block: u32,
    pub ip: u32,
    pub dst: u32,
    pub normal: Option<u32>,
    pub sp: u32,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<Ref>,
    pub known: Vec<Ref>,
    pub model: Rc<Model>,
    pub bound: Rc<HashMap<u32, ()>>,
    pub inputs: Rc<Vec<(Ref, u16)>>,
    pub outs: Rc<Vec<Val>>,
    pub ninst: u64,
    pub forks: u64,
    pub allow_panic: bool,
    pub reach: Rc<Vec<u64>>,
    pub nasserts: u64,
    pub clock: u64,
    /// loads through symbolic addresses: address, value, candidates (offset, value there)
    pub sloads: Rc<Vec<SLoad>>,
}
#[derive(Clone)]
pub struct SLoad {
    pub addr: Ref,
    pub key: u32,
    pub n: usize,
    pub val: Ref,
    pub ent: Rc<Vec<(u64, Ref)>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    Assume,
    AllowedPanic(String),
    Violation(String, String),
    Unsup(String),
    Limit(String),
}
pub type R<T> = Result<T, End>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u16, u128)>,
    pub trace: Vec<String>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths_done: u64,
    pub paths_assume: u64,
    pub paths_panic_ok: u64,
    pub paths_viol: u64,
    pub paths_bad: u64,
    pub inst: u64,
    pub forks: u64,
    pub asserts: u64,
    pub sym_branches: u64,
    pub guessed: u64,
    pub max_depth: usize,
    pub incomplete: BTreeMap<String, u64>,
    pub reach: BTreeMap<u64, u64>,
}

pub struct Cfg {
    pub max_inst: u64,
    pub max_paths: u64,
    pub deadline: std::time::Instant,
    pub trace: bool,
    pub nsamples: usize,
    pub max_viol: usize,
}

pub struct Sample {
    pub inputs: Vec<(u16, u128)>,
    pub outs: Vec<u128>,
    pub end: String,
}

pub struct Engine {
    pub w: World,
    pub cx: Ctx,
    pub sv: Solver,
    pub work: Vec<State>,
    pub st: Stats,
    pub cfg: Cfg,
    pub nvars: u32,
    pub viol: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub gcache: HashMap<u32, Rc<Obj>>,
    pub fn_inst: Vec<u64>,
    pub stop: Option<&'static std::sync::atomic::AtomicU64>,
    pub demand_split: Option<fn(&mut Engine)>,
    pub zero_hash: bool,
    pub rng: u64,
    pub traceon: bool,
    pub ring: Vec<Model>,
    pub ring_pos: u64,
}

fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(End::Unsup(s.into()))
}

impl Engine {
    pub fn new(w: World, cfg: Cfg, sv: Solver) -> Engine {
        Engine {
            w,
            cx: Ctx::new(),
            sv,
            work: vec![],
            st: Stats::default(),
            cfg,
            nvars: 0,
            viol: vec![],
            samples: vec![],
            gcache: HashMap::new(),
            fn_inst: vec![],
            stop: None,
            demand_split: None,
            zero_hash: true,
            rng: 1,
            traceon: false,
            ring: vec![],
            ring_pos: 0,
        }
    }
    pub fn initial(&mut self, func: &str, args: &[u64]) -> R<State> {
        let name: S = Box::leak(func.as_bytes().to_vec().into_boxed_slice());
        let id = self.w.fn_id(u32::MAX, name);
        let f = match self.w.get_func(id) {
            Some(f) => f,
            None => return unsup(format!("harness function {func} not found")),
        };
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() {
            regs[*p as usize] = Val::I(*args.get(i).unwrap_or(&0));
        }
        Ok(State {
            frames: vec![Frame { func: f, regs, block: 0, ip: 0, dst: NODST, normal: None, sp: 0 }],
            mem: Mem::default(),
            pc: vec![],
            known: vec![],
            model: Rc::new(Model::default()),
            bound: Rc::new(HashMap::new()),
            inputs: Rc::new(vec![]),
            outs: Rc::new(vec![]),
            ninst: 0,
            forks: 0,
            allow_panic: false,
            reach: Rc::new(vec![]),
            nasserts: 0,
            clock: 1_000_000_000,
            sloads: Rc::new(vec![]),
        })
    }

    // ---------------------------------------------------------------- values
    #[inline]
    pub fn r(&mut self, v: &Val, w: u16) -> Ref {
        match v {
            Val::I(x) => self.cx.cst(w, *x as u128),
            Val::W(x) => self.cx.cst(w, x[0] as u128 | (x[1] as u128) << 64),
            Val::S(r) => *r,
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    #[inline]
    pub fn v(&self, r: Ref) -> Val {
        match self.cx.as_const(r) {
            Some(c) => Val::from_u128(self.cx.w(r), c),
            None => Val::S(r),
        }
    }

    // ---------------------------------------------------------------- path condition
    fn slice(&mut self, st: &State, cond: Ref) -> Vec<Ref> {
        let mut vars: std::collections::HashSet<u32, BuildHasher> = self.cx.support(cond).iter().copied().collect();
        let mut out = vec![cond];
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut changed = false;
            for i in 0..st.pc.len() {
                if used[i] {
                    continue;
                }
                let s = self.cx.support(st.pc[i]);
                if s.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(st.pc[i]);
                    for v in s.iter() {
                        changed |= vars.insert(*v);
                    }
                }
            }
            if !changed {
                return out;
            }
        }
    }
    pub fn query(&mut self, st: &State, cond: Ref) -> Res {
        let t0 = std::time::Instant::now();
        let r = self.query1(st, cond);
        let ms = t0.elapsed().as_millis();
        if ms > 50 && std::env::var("VSX_SLOW").is_ok() {
            let k = match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", Res::Unknown => "unknown" };
            eprintln!("SLOW {ms} ms {k} at {:?}", st.frames.iter().rev().take(3).map(|f| demangle(f.func.name)).collect::<Vec<_>>());
        }
        r
    }
    fn query1(&mut self, st: &State, cond: Ref) -> Res {
        if let Some(c) = self.cx.as_const(cond) {
            return if c == 1 { Res::Sat((*st.model).clone()) } else { Res::Unsat };
        }
        let sl = self.slice(st, cond);
        // constraints over the condition's own variables only: path-independent, so well cached
        let sup = self.cx.support(cond);
        if sl.len() > 1 {
            let mut tight: Vec<Ref> = vec![cond];
            for &c in &sl[1..] {
                let s = self.cx.support(c);
                if s.iter().all(|v| sup.binary_search(v).is_ok()) {
                    tight.push(c);
                }
            }
            if tight.len() < sl.len() {
                match self.sv.cached(&tight) {
                    Some(Res::Unsat) => return Res::Unsat,
                    _ => {}
                }
                if let Some(m) = self.guess(st, cond, &sl, &sup) {
                    return Res::Sat(m);
                }
                match self.sv.check(&mut self.cx, &tight) {
                    Res::Unsat => return Res::Unsat,
                    Res::Sat(m) => {
                        // the same values may do for the whole path condition
                        let mut full = (*st.model).clone();
                        for (k, v) in m {
                            full.insert(k, v);
                        }
                        self.cx.eval_begin();
                        if sl.iter().all(|&c| self.cx.eval_in(c, &full) == 1) {
                            self.remember(&full);
                            return Res::Sat(full);
                        }
                    }
                    Res::Unknown => {}
                }
            } else if let Some(m) = self.guess(st, cond, &sl, &sup) {
                return Res::Sat(m);
            }
        } else if let Some(m) = self.guess(st, cond, &sl, &sup) {
            return Res::Sat(m);
        }
        match self.sv.check(&mut self.cx, &sl) {
            Res::Sat(m) => {
                let mut full = (*st.model).clone();
                for (k, v) in m {
                    full.insert(k, v);
                }
                self.remember(&full);
                Res::Sat(full)
            }
            x => x,
        }
    }
    fn remember(&mut self, m: &Model) {
        let i = (self.ring_pos % 24) as usize;
        self.ring_pos += 1;
        if self.ring.len() <= i {
            self.ring.push(m.clone());
        } else {
            self.ring[i] = m.clone();
        }
    }
    /// Try to satisfy the constraints by evaluation: recent models, then small changes to the path's model.
    fn guess(&mut self, st: &State, cond: Ref, sl: &[Ref], sup: &[u32]) -> Option<Model> {
        for i in 0..self.ring.len() {
            let mut m = (*st.model).clone();
            // only the variables tied to the condition move
            let mut any = false;
            for &c in sl {
                for v in self.cx.support(c).iter() {
                    if let Some(x) = self.ring[i].get(v) {
                        m.insert(*v, *x);
                        any = true;
                    } else {
                        m.insert(*v, 0);
                    }
                }
            }
            if !any {
                continue;
            }
            self.cx.eval_begin();
            if self.cx.eval_in(cond, &m) == 1 && sl.iter().all(|&c| self.cx.eval_in(c, &m) == 1) {
                self.st.guessed += 1;
                return Some(m);
            }
        }
        let mut m = (*st.model).clone();
        let n = sup.len().min(24);
        let start = if sup.len() > 24 { (self.rng >> 13) as usize % sup.len() } else { 0 };
        let mut others: Vec<u128> = vec![];
        for v in sup.iter().take(8) {
            others.push(m.get(v).copied().unwrap_or(0));
        }
        for i in 0..n {
            let v = sup[(start + i) % sup.len()];
            if st.bound.contains_key(&v) {
                continue;
            }
            let w = self.cx.var_w[&v];
            let mk = mask(w);
            let cur = m.get(&v).copied().unwrap_or(0);
            self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let rnd = ((self.rng >> 11) as u128) | ((self.rng as u128) << 64);
            let sh = (self.rng >> 40) as u32 % w as u32;
            let mut cand: Vec<u128> = vec![
                0,
                1,
                mk,
                mk >> 1,
                (mk >> 1) + 1,
                cur ^ 1,
                cur.wrapping_add(1) & mk,
                cur.wrapping_sub(1) & mk,
                !cur & mk,
                rnd & mk,
                (rnd & mk) >> sh,
                1u128 << sh,
                (cur ^ (1u128 << sh)) & mk,
            ];
            cand.extend(others.iter().map(|x| x & mk));
            for x in cand {
                if x == cur {
                    continue;
                }
                m.insert(v, x);
                self.cx.eval_begin();
                if self.cx.eval_in(cond, &m) == 1 && sl.iter().all(|&c| self.cx.eval_in(c, &m) == 1) {
                    self.st.guessed += 1;
                    self.remember(&m);
                    return Some(m);
                }
                if w == 1 {
                    break;
                }
            }
            m.insert(v, cur);
        }
        None
    }
    fn add_pc(&mut self, st: &mut State, c: Ref) {
        if self.cx.as_const(c).is_some() || st.pc.contains(&c) {
            return;
        }
        let n = self.cx.n(c);
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if n.op == Op::Not {
            let m = self.cx.n(n.a);
            if m.op == Op::Or && m.w == 1 {
                let a = self.cx.not(m.a);
                let b = self.cx.not(m.b);
                self.add_pc(st, a);
                self.add_pc(st, b);
                return;
            }
        }
        // variables pinned to a constant
        let mut pin = None;
        if n.op == Op::Eq {
            if self.cx.as_const(n.b).is_some() && self.cx.n(n.a).op == Op::Var {
                pin = Some(self.cx.n(n.a).a);
            }
        } else if n.op == Op::Var {
            pin = Some(n.a);
        } else if n.op == Op::Not && self.cx.n(n.a).op == Op::Var {
            pin = Some(self.cx.n(n.a).a);
        }
        if let Some(v) = pin {
            Rc::make_mut(&mut st.bound).insert(v, ());
        }
        st.pc.push(c);
    }
    fn all_bound(&mut self, st: &State, e: Ref) -> bool {
        if st.bound.is_empty() {
            return false;
        }
        self.cx.support(e).iter().all(|v| st.bound.contains_key(v))
    }
    /// Truth value of a condition on this path; the other value, when possible, becomes a new state.
    pub fn decide(&mut self, st: &mut State, cond: Ref) -> R<bool> {
        if let Some(c) = self.cx.as_const(cond) {
            return Ok(c == 1);
        }
        let nc = self.cx.not(cond);
        if st.pc.contains(&cond) || st.known.contains(&cond) {
            return Ok(true);
        }
        if st.pc.contains(&nc) || st.known.contains(&nc) {
            return Ok(false);
        }
        self.st.sym_branches += 1;
        let val = self.cx.eval(cond, &st.model) == 1;
        let (here, other) = if val { (cond, nc) } else { (nc, cond) };
        if self.all_bound(st, cond) {
            st.known.push(here);
            return Ok(val);
        }
        match self.query(st, other) {
            Res::Unsat => {
                st.known.push(here);
            }
            Res::Sat(m) => {
                let mut sib = st.clone();
                sib.model = Rc::new(m);
                self.add_pc(&mut sib, other);
                sib.forks += 1;
                st.forks += 1;
                self.st.forks += 1;
                self.work.push(sib);
                self.add_pc(st, here);
            }
            Res::Unknown => {
                *self.st.incomplete.entry("solver gave up on a branch".into()).or_default() += 1;
                self.add_pc(st, here);
            }
        }
        Ok(val)
    }
    pub fn decide_v(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::I(x) => Ok(*x & 1 == 1),
            Val::S(r) => self.decide(st, *r),
            _ => unsup("condition"),
        }
    }
    /// Pin a value on this path; other feasible values become new states.
    pub fn concretize(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::W(x) => Ok(x[0]),
            Val::S(r) => {
                let x = self.cx.eval(*r, &st.model);
                if self.all_bound(st, *r) {
                    return Ok(x as u64);
                }
                let w = self.cx.w(*r);
                let k = self.cx.cst(w, x);
                let c = self.cx.bin(Op::Eq, *r, k);
                self.decide(st, c)?;
                Ok(x as u64)
            }
            Val::A(_) => unsup("aggregate concretization"),
        }
    }
    pub fn assume(&mut self, st: &mut State, c: Ref) -> R<()> {
        if let Some(k) = self.cx.as_const(c) {
            return if k == 1 { Ok(()) } else { Err(End::Assume) };
        }
        if self.cx.eval(c, &st.model) != 1 {
            match self.query(st, c) {
                Res::Sat(m) => st.model = Rc::new(m),
                Res::Unsat => return Err(End::Assume),
                Res::Unknown => return Err(End::Limit("solver gave up on an assumption".into())),
            }
        }
        self.add_pc(st, c);
        Ok(())
    }
    pub fn inputs_of(&mut self, st: &State, m: &Model) -> Vec<(u16, u128)> {
        st.inputs.iter().map(|(r, w)| (*w, self.cx.eval(*r, m))).collect()
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(24).map(|f| demangle(f.func.name)).collect()
    }
    pub fn report(&mut self, st: &State, m: &Model, kind: &str, msg: String) {
        self.st.paths_viol += 1;
        if self.viol.iter().any(|v| v.kind == kind && v.msg == msg) {
            return;
        }
        let inputs = self.inputs_of(st, m);
        let trace = self.backtrace(st);
        self.viol.push(Violation { kind: kind.into(), msg, inputs, trace });
    }
    pub fn check(&mut self, st: &mut State, c: Ref, msg: String) -> R<()> {
        self.st.asserts += 1;
        st.nasserts += 1;
        if let Some(k) = self.cx.as_const(c) {
            if k == 1 {
                return Ok(());
            }
            let m = st.model.clone();
            self.report(st, &m, "assert", msg);
            return Err(End::Violation("assert".into(), String::new()));
        }
        if st.pc.contains(&c) || st.known.contains(&c) {
            return Ok(());
        }
        let nc = self.cx.not(c);
        if self.cx.eval(c, &st.model) != 1 {
            let m = st.model.clone();
            self.report(st, &m, "assert", msg);
        } else {
            match self.query(st, nc) {
                Res::Unsat => {
                    st.known.push(c);
                    return Ok(());
                }
                Res::Sat(m) => self.report(st, &m, "assert", msg),
                Res::Unknown => {
                    *self.st.incomplete.entry(format!("solver gave up on assertion: {msg}")).or_default() += 1;
                    self.add_pc(st, c);
                    return Ok(());
                }
            }
        }
        self.assume(st, c)
    }
    pub fn fresh(&mut self, st: &mut State, w: u16) -> Ref {
        // variables are numbered by their position on the path so that different paths share queries
        let id = st.inputs.len() as u32 * 8 + match w {
            1 => 0,
            8 => 1,
            16 => 2,
            32 => 3,
            64 => 4,
            128 => 5,
            _ => 6,
        };
        let id = if matches!(w, 1 | 8 | 16 | 32 | 64 | 128) { id } else { 0x1000_0000 + id * 128 + w as u32 };
        let r = self.cx.var(id, w);
        Rc::make_mut(&mut st.inputs).push((r, w));
        r
    }

    // ---------------------------------------------------------------- memory
    fn obj_ready(&mut self, st: &mut State, key: u32) -> bool {
        if st.mem.get(key).is_some() {
            return true;
        }
        key < HEAP && st.mem.add_glob(&mut self.w, &mut self.gcache, key)
    }
    fn bad_mem<T>(&mut self, st: &mut State, what: &str, addr: u64, n: u64) -> R<T> {
        let key = (addr >> 32) as u32;
        let d = match st.mem.get(key) {
            None if key >= FNS => "function pointer".to_string(),
            None if key >= HEAP => "freed or never allocated object".to_string(),
            None => "null or dangling pointer".to_string(),
            Some(o) => format!("object of {} bytes at offset {}", o.data.len(), (addr as u32) as i64 - o.base as i64),
        };
        let m = st.model.clone();
        self.report(st, &m, "memory", format!("invalid {what} of {n} bytes: {d}"));
        Err(End::Violation("memory".into(), String::new()))
    }
    /// Make sure [addr, addr+n) lies inside one object. The address is concrete.
    fn locate(&mut self, st: &mut State, addr: u64, n: u64, what: &str) -> R<(u32, usize)> {
        let key = (addr >> 32) as u32;
        if !self.obj_ready(st, key) {
            return self.bad_mem(st, what, addr, n);
        }
        let o = st.mem.get(key).unwrap();
        let off = (addr as u32).wrapping_sub(o.base) as u64;
        if off + n > o.data.len() as u64 {
            return self.bad_mem(st, what, addr, n);
        }
        Ok((key, off as usize))
    }
    /// A symbolic address: fork until it lies in one object; returns (key, offset expression, size)
    fn locate_sym(&mut self, st: &mut State, a: Ref, n: u64, what: &str) -> R<(u32, Ref, u64)> {
        let a0 = self.cx.eval(a, &st.model) as u64;
        let (key, _) = self.locate(st, a0, n, what)?;
        let o = st.mem.get(key).unwrap();
        let size = o.data.len() as u64;
        let base = ((key as u64) << 32) | o.base as u64;
        let kb = self.cx.cst(64, base as u128);
        let d = self.cx.bin(Op::Sub, a, kb);
        let lim = self.cx.cst(64, (size - n) as u128);
        let c = self.cx.bin(Op::Ule, d, lim);
        self.decide(st, c)?;
        Ok((key, d, size))
    }
    fn tz(&self, r: Ref, depth: u32) -> u32 {
        // known trailing zero bits
        let n = self.cx.n(r);
        if let Some(c) = self.cx.as_const(r) {
            return if c == 0 { n.w as u32 } else { c.trailing_zeros() };
        }
        if depth == 0 {
            return 0;
        }
        match n.op {
            Op::Concat => {
                let t = self.tz(n.b, depth - 1);
                let lw = self.cx.w(n.b) as u32;
                if t >= lw {
                    lw + self.tz(n.a, depth - 1)
                } else {
                    t
                }
            }
            Op::ZExt | Op::SExt => {
                let t = self.tz(n.a, depth - 1);
                if t >= self.cx.w(n.a) as u32 {
                    n.w as u32
                } else {
                    t
                }
            }
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(n.a, depth - 1).min(self.tz(n.b, depth - 1)),
            Op::And => self.tz(n.a, depth - 1).max(self.tz(n.b, depth - 1)),
            Op::Mul => (self.tz(n.a, depth - 1) + self.tz(n.b, depth - 1)).min(n.w as u32),
            Op::Ite => self.tz(n.b, depth - 1).min(self.tz(n.c, depth - 1)),
            Op::Shl => self.tz(n.a, depth - 1),
            _ => 0,
        }
    }
    pub fn load_at(&mut self, st: &State, key: u32, off: usize, n: usize) -> Val {
        let o = st.mem.get(key).unwrap();
        if o.all_conc(off, n) {
            let mut x = [0u8; 16];
            x[..n].copy_from_slice(&o.data[off..off + n]);
            return Val::from_u128(8 * n as u16, u128::from_le_bytes(x));
        }
        let s = o.sym.as_ref().unwrap();
        // gather runs from the low byte upwards
        let mut acc: Option<Ref> = None;
        let mut i = 0;
        while i < n {
            let (r, k) = s[off + i];
            let mut j = i + 1;
            let piece = if r == 0 {
                while j < n && s[off + j].0 == 0 {
                    j += 1;
                }
                let mut x = [0u8; 16];
                x[..j - i].copy_from_slice(&o.data[off + i..off + j]);
                self.cx.cst(8 * (j - i) as u16, u128::from_le_bytes(x))
            } else {
                while j < n && s[off + j] == (r, k + (j - i) as u8) {
                    j += 1;
                }
                let lo = 8 * k as u16;
                let hi = lo + 8 * (j - i) as u16 - 1;
                self.cx.extract(r, hi, lo)
            };
            acc = Some(match acc {
                None => piece,
                Some(a) => self.cx.concat(piece, a),
            });
            i = j;
        }
        let r = acc.unwrap();
        self.v(r)
    }
    pub fn store_at(&mut self, st: &mut State, key: u32, off: usize, n: usize, v: &Val) {
        match v {
            Val::I(x) => {
                let b = x.to_le_bytes();
                let o = st.mem.get_mut(key).unwrap();
                if n <= 8 {
                    o.set_conc(off, &b[..n]);
                } else {
                    o.set_conc(off, &b);
                    for i in 8..n {
                        o.set_conc(off + i, &[0]);
                    }
                }
            }
            Val::W(x) => {
                let mut b = [0u8; 16];
                b[..8].copy_from_slice(&x[0].to_le_bytes());
                b[8..].copy_from_slice(&x[1].to_le_bytes());
                st.mem.get_mut(key).unwrap().set_conc(off, &b[..n]);
            }
            Val::S(r) => {
                let o = st.mem.get_mut(key).unwrap();
                for i in 0..n {
                    o.set_sym(off + i, *r, i as u8);
                }
            }
            Val::A(_) => panic!("store_at aggregate"),
        }
    }
    /// load n bytes (n <= 16) as a bit-vector of 8n bits
    pub fn load_n(&mut self, st: &mut State, p: &Val, n: usize) -> R<Val> {
        match p {
            Val::I(a) => {
                let (key, off) = self.locate(st, *a, n as u64, "read")?;
                Ok(self.load_at(st, key, off, n))
            }
            Val::S(a) => {
                if self.all_bound(st, *a) {
                    let x = self.cx.eval(*a, &st.model) as u64;
                    return self.load_n(st, &Val::I(x), n);
                }
                let (key, d, size) = self.locate_sym(st, *a, n as u64, "read")?;
                let t = self.tz(d, 12).min(6);
                let stride = 1u64 << t;
                let max = self.cx.umax_of(d, 8).min((size - n as u64) as u128) as u64;
                let cnt = max / stride + 1;
                if cnt > 4096 {
                    let x = self.concretize(st, p)?;
                    return self.load_n(st, &Val::I(x), n);
                }
                let mut leaves: Vec<Ref> = Vec::with_capacity(cnt as usize);
                for i in 0..cnt {
                    let v = self.load_at(st, key, (i * stride) as usize, n);
                    leaves.push(self.r(&v, 8 * n as u16));
                }
                let ent: Rc<Vec<(u64, Ref)>> =
                    Rc::new(leaves.iter().enumerate().map(|(i, r)| (i as u64 * stride, *r)).collect());
                let mut bit = t as u16;
                while leaves.len() > 1 {
                    let b = self.cx.extract(d, bit, bit);
                    let mut next = Vec::with_capacity(leaves.len().div_ceil(2));
                    for c in leaves.chunks(2) {
                        if c.len() == 2 {
                            next.push(self.cx.ite(b, c[1], c[0]));
                        } else {
                            next.push(c[0]);
                        }
                    }
                    leaves = next;
                    bit += 1;
                }
                if self.cx.as_const(leaves[0]).is_none() {
                    let sl = Rc::make_mut(&mut st.sloads);
                    if sl.len() >= 4 {
                        sl.remove(0);
                    }
                    sl.push(SLoad { addr: *a, key, n, val: leaves[0], ent });
                }
                Ok(self.v(leaves[0]))
            }
            _ => unsup("load address"),
        }
    }
    pub fn store_n(&mut self, st: &mut State, p: &Val, n: usize, v: &Val) -> R<()> {
        match p {
            Val::I(a) => {
                let (key, off) = self.locate(st, *a, n as u64, "write")?;
                if st.mem.get(key).unwrap().ro {
                    return self.bad_mem(st, "write to constant", *a, n as u64);
                }
                self.store_at(st, key, off, n, v);
                Ok(())
            }
            Val::S(a) => {
                if self.all_bound(st, *a) {
                    let x = self.cx.eval(*a, &st.model) as u64;
                    return self.store_n(st, &Val::I(x), n, v);
                }
                let (key, d, size) = self.locate_sym(st, *a, n as u64, "write")?;
                if st.mem.get(key).unwrap().ro {
                    return self.bad_mem(st, "write to constant", (key as u64) << 32, n as u64);
                }
                let t = self.tz(d, 12).min(6);
                let stride = 1u64 << t;
                let max = self.cx.umax_of(d, 8).min((size - n as u64) as u128) as u64;
                let cnt = max / stride + 1;
                if cnt > 256 {
                    let x = self.concretize(st, p)?;
                    return self.store_n(st, &Val::I(x), n, v);
                }
                let bits = 8 * n as u16;
                let nv = self.r(v, bits);
                // a read-modify-write: where the address is entry k, the value read was entry k's
                let rmw = st.sloads.iter().rev().find(|l| l.addr == *a && l.key == key).cloned();
                if stride >= n as u64 {
                    for i in 0..cnt {
                        let off = i * stride;
                        let nv = match &rmw {
                            Some(l) => match l.ent.iter().find(|e| e.0 == off) {
                                Some(e) => self.cx.subst(nv, l.val, e.1),
                                None => nv,
                            },
                            None => nv,
                        };
                        let old = self.load_at(st, key, off as usize, n);
                        let old = self.r(&old, bits);
                        let k = self.cx.cst(64, off as u128);
                        let c = self.cx.bin(Op::Eq, d, k);
                        let x = self.cx.ite(c, nv, old);
                        let x = self.v(x);
                        self.store_at(st, key, off as usize, n, &x);
                    }
                } else {
                    // overlapping candidates: per byte
                    for i in 0..cnt {
                        let off = i * stride;
                        let k = self.cx.cst(64, off as u128);
                        let c = self.cx.bin(Op::Eq, d, k);
                        for b in 0..n {
                            let old = self.load_at(st, key, off as usize + b, 1);
                            let old = self.r(&old, 8);
                            let nb = self.cx.extract(nv, 8 * b as u16 + 7, 8 * b as u16);
                            let x = self.cx.ite(c, nb, old);
                            let x = self.v(x);
                            self.store_at(st, key, off as usize + b, 1, &x);
                        }
                    }
                }
                Ok(())
            }
            _ => unsup("store address"),
        }
    }
    pub fn addv(&mut self, p: &Val, off: u64) -> Val {
        if off == 0 {
            return p.clone();
        }
        match p {
            Val::I(a) => Val::I(a.wrapping_add(off)),
            _ => {
                let a = self.r(p, 64);
                let k = self.cx.cst(64, off as u128);
                let s = self.cx.bin(Op::Add, a, k);
                self.v(s)
            }
        }
    }
    pub fn load_ty(&mut self, st: &mut State, ty: Ty, p: &Val) -> R<Val> {
        match self.w.tk(ty).clone() {
            TyK::Int(w) => {
                let n = (w as usize).div_ceil(8);
                if n > 16 {
                    return unsup(format!("i{w} load"));
                }
                let v = self.load_n(st, p, n)?;
                if w as usize == 8 * n {
                    Ok(v)
                } else {
                    Ok(match v {
                        Val::S(r) => {
                            let x = self.cx.extract(r, w - 1, 0);
                            self.v(x)
                        }
                        v => Val::from_u128(w, v.conc().unwrap()),
                    })
                }
            }
            TyK::F(w) if w <= 64 => self.load_n(st, p, w as usize / 8),
            TyK::Ptr => self.load_n(st, p, 8),
            TyK::Struct(f, _) => {
                let mut out = vec![];
                for (i, t) in f.iter().enumerate() {
                    let o = self.w.tys[ty as usize].offs[i];
                    let q = self.addv(p, o);
                    out.push(self.load_ty(st, *t, &q)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            TyK::Arr(n, e) => {
                let s = self.w.size(e);
                let mut out = vec![];
                for i in 0..n {
                    let q = self.addv(p, i * s);
                    out.push(self.load_ty(st, e, &q)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            TyK::Vec(n, e) => {
                let (ew, _) = self.w.wl(e);
                if ew % 8 != 0 {
                    let bytes = self.w.tys[ty as usize].store as usize;
                    let v = self.load_n(st, p, bytes)?;
                    let v = self.r(&v, 8 * bytes as u16);
                    let mut out = vec![];
                    for i in 0..n as u16 {
                        let x = self.cx.extract(v, (i + 1) * ew - 1, i * ew);
                        out.push(self.v(x));
                    }
                    return Ok(Val::A(Rc::new(out)));
                }
                let s = ew as u64 / 8;
                let mut out = vec![];
                for i in 0..n as u64 {
                    let q = self.addv(p, i * s);
                    out.push(self.load_n(st, &q, s as usize)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            k => unsup(format!("load of {k:?}")),
        }
    }
    pub fn store_ty(&mut self, st: &mut State, ty: Ty, p: &Val, v: &Val) -> R<()> {
        match self.w.tk(ty).clone() {
            TyK::Int(w) => {
                let n = (w as usize).div_ceil(8);
                if n > 16 {
                    return unsup(format!("i{w} store"));
                }
                if w as usize == 8 * n {
                    self.store_n(st, p, n, v)
                } else {
                    let v2 = match v {
                        Val::S(r) => {
                            let z = self.cx.zext(*r, 8 * n as u16);
                            self.v(z)
                        }
                        v => v.clone(),
                    };
                    self.store_n(st, p, n, &v2)
                }
            }
            TyK::F(w) if w <= 64 => self.store_n(st, p, w as usize / 8, v),
            TyK::Ptr => self.store_n(st, p, 8, v),
            TyK::Struct(f, _) => {
                let Val::A(a) = v else { return unsup("store struct") };
                for (i, t) in f.iter().enumerate() {
                    let o = self.w.tys[ty as usize].offs[i];
                    let q = self.addv(p, o);
                    self.store_ty(st, *t, &q, &a[i])?;
                }
                Ok(())
            }
            TyK::Arr(n, e) => {
                let Val::A(a) = v else { return unsup("store array") };
                let s = self.w.size(e);
                for i in 0..n {
                    let q = self.addv(p, i * s);
                    self.store_ty(st, e, &q, &a[i as usize])?;
                }
                Ok(())
            }
            TyK::Vec(n, e) => {
                let Val::A(a) = v else { return unsup("store vector") };
                let (ew, _) = self.w.wl(e);
                if ew % 8 != 0 {
                    let bytes = self.w.tys[ty as usize].store as usize;
                    let x = self.pack_bits(a, ew);
                    let x = self.cx.zext(x, 8 * bytes as u16);
                    let x = self.v(x);
                    return self.store_n(st, p, bytes, &x);
                }
                let s = ew as u64 / 8;
                for i in 0..n as u64 {
                    let q = self.addv(p, i * s);
                    self.store_n(st, &q, s as usize, &a[i as usize])?;
                }
                Ok(())
            }
            k => unsup(format!("store of {k:?}")),
        }
    }
    fn pack_bits(&mut self, a: &[Val], ew: u16) -> Ref {
        let mut acc: Option<Ref> = None;
        for x in a {
            let r = self.r(x, ew);
            acc = Some(match acc {
                None => r,
                Some(l) => self.cx.concat(r, l),
            });
        }
        acc.unwrap()
    }
    /// concrete bytes (fails on symbolic content)
    pub fn read_conc(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (key, off) = self.locate(st, a, n, "read")?;
        let mut out = vec![];
        for i in 0..n as usize {
            let v = self.load_at(st, key, off + i, 1);
            out.push(match v {
                Val::I(x) => x as u8,
                Val::S(r) => self.cx.eval(r, &st.model) as u8,
                _ => 0,
            });
        }
        Ok(out)
    }
    pub fn copy_mem(&mut self, st: &mut State, dst: &Val, src: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if n <= 16 && (matches!(dst, Val::S(_)) || matches!(src, Val::S(_))) {
            let v = self.load_n(st, src, n as usize)?;
            return self.store_n(st, dst, n as usize, &v);
        }
        let s = self.concretize(st, src)?;
        let d = self.concretize(st, dst)?;
        let (sk, so) = self.locate(st, s, n, "read")?;
        let (dk, dof) = self.locate(st, d, n, "write")?;
        if st.mem.get(dk).unwrap().ro {
            return self.bad_mem(st, "write to constant", d, n);
        }
        let n = n as usize;
        let o = st.mem.get(sk).unwrap().clone();
        let t = st.mem.get_mut(dk).unwrap();
        t.data[dof..dof + n].copy_from_slice(&o.data[so..so + n]);
        match &o.sym {
            Some(ss) if ss[so..so + n].iter().any(|x| x.0 != 0) => {
                let len = t.data.len();
                let ts = t.sym.get_or_insert_with(|| Box::new(vec![(0, 0); len]));
                ts[dof..dof + n].copy_from_slice(&ss[so..so + n]);
            }
            _ => {
                if let Some(ts) = &mut t.sym {
                    for x in ts[dof..dof + n].iter_mut() {
                        *x = (0, 0);
                    }
                }
            }
        }
        Ok(())
    }
    pub fn set_mem(&mut self, st: &mut State, dst: &Val, b: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let d = self.concretize(st, dst)?;
        let (dk, dof) = self.locate(st, d, n, "write")?;
        let n = n as usize;
        let o = st.mem.get_mut(dk).unwrap();
        match b {
            Val::I(x) => {
                o.data[dof..dof + n].fill(*x as u8);
                if let Some(ts) = &mut o.sym {
                    for x in ts[dof..dof + n].iter_mut() {
                        *x = (0, 0);
                    }
                }
            }
            Val::S(r) => {
                let r = *r;
                for i in 0..n {
                    o.set_sym(dof + i, r, 0);
                }
            }
            _ => return unsup("memset"),
        }
        Ok(())
    }

    // ---------------------------------------------------------------- running
    pub fn run_all(&mut self) {
        while let Some(st) = self.work.pop() {
            if let Some(s) = self.stop {
                if s.load(std::sync::atomic::Ordering::Relaxed) != 0 {
                    *self.st.incomplete.entry("stopped after a violation".into()).or_default() += 1;
                    return;
                }
            }
            let paths = self.st.paths_done + self.st.paths_assume + self.st.paths_panic_ok + self.st.paths_viol;
            if std::time::Instant::now() > self.cfg.deadline {
                let n = self.work.len() as u64 + 1;
                *self.st.incomplete.entry("time limit".into()).or_default() += n;
                return;
            }
            if paths >= self.cfg.max_paths {
                let n = self.work.len() as u64 + 1;
                *self.st.incomplete.entry("path limit".into()).or_default() += n;
                return;
            }
            let mut st = st;
            let end = self.run_state(&mut st);
            self.finish(st, end);
            if self.viol.len() >= self.cfg.max_viol {
                if let Some(s) = self.stop {
                    s.store(1, std::sync::atomic::Ordering::Relaxed);
                }
                if !self.work.is_empty() {
                    *self.st.incomplete.entry("stopped after a violation".into()).or_default() += 1;
                }
                return;
            }
            if self.work.len() >= 2 {
                if let Some(f) = self.demand_split {
                    f(self);
                }
            }
        }
    }
    fn finish(&mut self, st: State, end: End) {
        for r in st.reach.iter() {
            *self.st.reach.entry(*r).or_default() += 1;
        }
        if self.cfg.trace {
            eprintln!("path end: {:?} after {} inst, pc {}", end, st.ninst, st.pc.len());
        }
        let label = match &end {
            End::Done => {
                self.st.paths_done += 1;
                "done"
            }
            End::AllowedPanic(_) => {
                self.st.paths_panic_ok += 1;
                "panic"
            }
            End::Assume => {
                self.st.paths_assume += 1;
                return;
            }
            End::Violation(..) => return,
            End::Unsup(s) => {
                self.st.paths_bad += 1;
                let bt = self.backtrace(&st);
                let k = format!("unsupported: {s} [in {}]", bt.iter().take(6).cloned().collect::<Vec<_>>().join(" < "));
                *self.st.incomplete.entry(k).or_default() += 1;
                return;
            }
            End::Limit(s) => {
                self.st.paths_bad += 1;
                let bt = self.backtrace(&st);
                let k = format!("limit: {s} [in {}]", bt.iter().take(6).cloned().collect::<Vec<_>>().join(" < "));
                *self.st.incomplete.entry(k).or_default() += 1;
                return;
            }
        };
        // reservoir sample of completed paths
        let total = self.st.paths_done + self.st.paths_panic_ok;
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let slot = if self.samples.len() < self.cfg.nsamples {
            self.samples.len()
        } else {
            ((self.rng >> 33) % total.max(1)) as usize
        };
        if slot < self.cfg.nsamples {
            let m = st.model.clone();
            let inputs = self.inputs_of(&st, &m);
            let mut outs = vec![];
            for v in st.outs.iter() {
                outs.push(match v {
                    Val::S(r) => self.cx.eval(*r, &m),
                    v => v.conc().unwrap_or(0),
                });
            }
            let s = Sample { inputs, outs, end: label.into() };
            if slot < self.samples.len() {
                self.samples[slot] = s;
            } else {
                self.samples.push(s);
            }
        }
    }
    pub fn run_state(&mut self, st: &mut State) -> End {
        let start = st.ninst;
        let mut next_check = 1 << 18;
        loop {
            // account and check limits now and then
            let r = self.step_block(st);
            if st.ninst - start > next_check {
                next_check += 1 << 18;
                if std::time::Instant::now() > self.cfg.deadline {
                    self.st.inst += st.ninst - start;
                    return End::Limit("time limit inside a path".into());
                }
            }
            if st.ninst > self.cfg.max_inst {
                self.st.inst += st.ninst - start;
                // candidate for nontermination; keep the inputs for native replay
                let m = st.model.clone();
                let inputs = self.inputs_of(st, &m);
                let trace = self.backtrace(st);
                self.viol.push(Violation {
                    kind: "nontermination?".into(),
                    msg: format!("no result after {} instructions", self.cfg.max_inst),
                    inputs,
                    trace,
                });
                return End::Violation("nontermination?".into(), String::new());
            }
            if let Err(e) = r {
                self.st.inst += st.ninst - start;
                return e;
            }
        }
    }
    #[inline]
    fn ev(fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::C(v) => v.clone(),
        }
    }
    fn goto(&mut self, st: &mut State, e: u32) {
        let fr = st.frames.last_mut().unwrap();
        let func = fr.func;
        let edge = &func.edges[e as usize];
        match edge.copies.len() {
            0 => {}
            1 => {
                let (d, o) = &edge.copies[0];
                let v = Self::ev(fr, o);
                fr.regs[*d as usize] = v;
            }
            _ => {
                let vals: Vec<Val> = edge.copies.iter().map(|(_, o)| Self::ev(fr, o)).collect();
                for ((d, _), v) in edge.copies.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.block = edge.to;
        fr.ip = 0;
    }
    pub fn set(&mut self, st: &mut State, dst: u32, v: Val) {
        if dst != NODST {
            st.frames.last_mut().unwrap().regs[dst as usize] = v;
        }
    }
    /// execute until control leaves the current block (or a call/return happens)
    fn step_block(&mut self, st: &mut State) -> R<()> {
        let nf = st.frames.len();
        let (func, block) = {
            let fr = st.frames.last().unwrap();
            (fr.func, fr.block)
        };
        let insts: &'static [Inst] = &func.blocks[block as usize];
        let id = func.id as usize;
        if id >= self.fn_inst.len() {
            self.fn_inst.resize(id + 256, 0);
        }
        let n0 = st.ninst;
        let r = (|| -> R<()> {
            loop {
                let ip = st.frames.last().unwrap().ip as usize;
                if ip >= insts.len() {
                    panic!("fell off block {block} of {} {:?}", String::from_utf8_lossy(self.w.fns[id].name), insts);
                }
                let inst = &insts[ip];
                st.ninst += 1;
                if self.step(st, inst)? {
                    return Ok(());
                }
                debug_assert_eq!(st.frames.len(), nf);
                st.frames.last_mut().unwrap().ip += 1;
            }
        })();
        self.fn_inst[id] += st.ninst - n0;
        r
    }
    /// returns true when control was transferred
    #[inline]
    fn step(&mut self, st: &mut State, inst: &'static Inst) -> R<bool> {
        let fr = st.frames.last_mut().unwrap();
        match inst {
            Inst::Bin { op, w, lanes, dst, a, b } => {
                let x = Self::ev(fr, a);
                let y = Self::ev(fr, b);
                if *lanes == 0 {
                    if let (Val::I(p), Val::I(q)) = (&x, &y) {
                        let (p, q) = (*p, *q);
                        let m = if *w >= 64 { u64::MAX } else { (1u64 << *w) - 1 };
                        let res = match op {
                            BinOp::Add => Some(p.wrapping_add(q) & m),
                            BinOp::Sub => Some(p.wrapping_sub(q) & m),
                            BinOp::Mul => Some(p.wrapping_mul(q) & m),
                            BinOp::And => Some(p & q),
                            BinOp::Or => Some(p | q),
                            BinOp::Xor => Some(p ^ q),
                            BinOp::Shl => Some(if q >= *w as u64 { 0 } else { (p << q) & m }),
                            BinOp::LShr => Some(if q >= *w as u64 { 0 } else { p >> q }),
                            _ => None,
                        };
                        if let Some(v) = res {
                            fr.regs[*dst as usize] = Val::I(v);
                            return Ok(false);
                        }
                    }
                    let v = self.binop(st, *op, *w, &x, &y)?;
                    self.set(st, *dst, v);
                } else {
                    let (Val::A(x), Val::A(y)) = (&x, &y) else { return unsup("vector op") };
                    let mut out = Vec::with_capacity(x.len());
                    for i in 0..x.len() {
                        out.push(self.binop(st, *op, *w, &x[i], &y[i])?);
                    }
                    self.set(st, *dst, Val::A(Rc::new(out)));
                }
            }
            Inst::ICmp { p, w, lanes, dst, a, b } => {
                let x = Self::ev(fr, a);
                let y = Self::ev(fr, b);
                if *lanes == 0 {
                    let v = self.icmp(*p, *w, &x, &y);
                    self.set(st, *dst, v);
                } else {
                    let (Val::A(x), Val::A(y)) = (&x, &y) else { return unsup("vector icmp") };
                    let mut out = Vec::with_capacity(x.len());
                    for i in 0..x.len() {
                        out.push(self.icmp(*p, *w, &x[i], &y[i]));
                    }
                    self.set(st, *dst, Val::A(Rc::new(out)));
                }
            }
            Inst::Load { ty, dst, p } => {
                let a = Self::ev(fr, p);
                let v = self.load_ty(st, *ty, &a)?;
                self.set(st, *dst, v);
            }
            Inst::Store { ty, v, p } => {
                let a = Self::ev(fr, p);
                let x = Self::ev(fr, v);
                self.store_ty(st, *ty, &a, &x)?;
            }
            Inst::Gep { dst, base, off, terms, lanes } => {
                let b = Self::ev(fr, base);
                if *lanes > 0 {
                    return unsup("vector getelementptr");
                }
                let mut acc = b;
                let mut conc = *off;
                let mut syms: Vec<Ref> = vec![];
                for (o, iw, scale) in terms.iter() {
                    let v = Self::ev(fr, o);
                    match v {
                        Val::I(x) => {
                            let i = sext(x as u128, *iw) as i64 as u64;
                            conc = conc.wrapping_add(i.wrapping_mul(*scale));
                        }
                        Val::S(r) => {
                            let e = if *iw < 64 {
                                self.cx.sext(r, 64)
                            } else if *iw > 64 {
                                self.cx.extract(r, 63, 0)
                            } else {
                                r
                            };
                            let k = self.cx.cst(64, *scale as u128);
                            let e = self.cx.bin(Op::Mul, e, k);
                            syms.push(e);
                        }
                        _ => return unsup("gep index"),
                    }
                }
                acc = self.addv(&acc, conc);
                for e in syms {
                    let a = self.r(&acc, 64);
                    let s = self.cx.bin(Op::Add, a, e);
                    acc = self.v(s);
                }
                self.set(st, *dst, acc);
            }
            Inst::Br(e) => {
                self.goto(st, *e);
                return Ok(true);
            }
            Inst::CondBr { c, t, e } => {
                let v = Self::ev(fr, c);
                let b = match v {
                    Val::I(x) => x & 1 == 1,
                    v => self.decide_v(st, &v)?,
                };
                self.goto(st, if b { *t } else { *e });
                return Ok(true);
            }
            Inst::Cast { op, from, to, dst, a } => {
                let x = Self::ev(fr, a);
                if fr.func.search && matches!(x, Val::S(_)) && self.w.wl(*from).0 == 1 && *to != *from {
                    // the position found: base + (order == Less)
                    let t = self.decide_v(st, &x)?;
                    let v = self.cast(*op, *from, *to, &Val::I(t as u64))?;
                    self.set(st, *dst, v);
                    return Ok(false);
                }
                let v = self.cast(*op, *from, *to, &x)?;
                self.set(st, *dst, v);
            }
            Inst::Select { ty, dst, c, a, b, vecc } => {
                let cv = Self::ev(fr, c);
                if *vecc {
                    let (x, y) = (Self::ev(fr, a), Self::ev(fr, b));
                    let (Val::A(cs), Val::A(x), Val::A(y)) = (&cv, &x, &y) else { return unsup("vector select") };
                    let ew = self.w.wl(*ty).0;
                    let mut out = vec![];
                    for i in 0..cs.len() {
                        out.push(self.sel(&cs[i], ew, &x[i], &y[i]));
                    }
                    self.set(st, *dst, Val::A(Rc::new(out)));
                    return Ok(false);
                }
                match cv {
                    Val::I(k) => {
                        let v = Self::ev(fr, if k & 1 == 1 { a } else { b });
                        fr.regs[*dst as usize] = v;
                    }
                    cv => {
                        let (x, y) = (Self::ev(fr, a), Self::ev(fr, b));
                        // the bounds of a binary search: explored one by one, an index stays a number
                        if let (Val::I(i), Val::I(j)) = (&x, &y) {
                            if i != j && fr.func.search {
                                let t = self.decide_v(st, &cv)?;
                                self.set(st, *dst, if t { x } else { y });
                                return Ok(false);
                            }
                        }
                        let v = self.sel_ty(*ty, &cv, &x, &y);
                        self.set(st, *dst, v);
                    }
                }
            }
            Inst::Call(c) => return self.call(st, c),
            Inst::Ret(v) => {
                let val = v.as_ref().map(|o| Self::ev(fr, o));
                let fr = st.frames.pop().unwrap();
                st.mem.pop_stack(fr.sp);
                if st.frames.is_empty() {
                    return Err(End::Done);
                }
                if let Some(v) = val {
                    self.set(st, fr.dst, v);
                }
                match fr.normal {
                    Some(e) => self.goto(st, e),
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
                return Ok(true);
            }
            Inst::Switch { v, w, cases, def } => {
                let x = Self::ev(fr, v);
                let e = match x {
                    Val::I(k) => cases.iter().find(|c| c.0 == k as u128).map(|c| c.1).unwrap_or(*def),
                    Val::S(r) => {
                        let k = self.cx.eval(r, &st.model);
                        let hit = cases.iter().find(|c| c.0 == k).map(|c| c.1);
                        let func = st.frames.last().unwrap().func;
                        let to = func.edges[hit.unwrap_or(*def) as usize].to;
                        let nophi = |e: u32| func.edges[e as usize].copies.is_empty();
                        // group the cases that lead to the same place
                        let same = |e: u32| match hit {
                            Some(h) => e == h || (func.edges[e as usize].to == to && nophi(e) && nophi(h)),
                            None => false,
                        };
                        let mut cond = self.cx.fls;
                        if hit.is_some() {
                            for (cv, ce) in cases.iter() {
                                if same(*ce) {
                                    let kk = self.cx.cst(*w, *cv);
                                    let q = self.cx.bin(Op::Eq, r, kk);
                                    cond = self.cx.bin(Op::Or, cond, q);
                                }
                            }
                        } else {
                            for (cv, _) in cases.iter() {
                                let kk = self.cx.cst(*w, *cv);
                                let q = self.cx.bin(Op::Eq, r, kk);
                                cond = self.cx.bin(Op::Or, cond, q);
                            }
                            cond = self.cx.not(cond);
                        }
                        self.decide(st, cond)?;
                        hit.unwrap_or(*def)
                    }
                    Val::W(k) => {
                        let k = k[0] as u128 | (k[1] as u128) << 64;
                        cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def)
                    }
                    _ => return unsup("switch"),
                };
                self.goto(st, e);
                return Ok(true);
            }
            Inst::Alloca { dst, size, align, count } => {
                let n = match count {
                    None => 1,
                    Some(o) => {
                        let v = Self::ev(fr, o);
                        self.concretize(st, &v)?
                    }
                };
                let a = st.mem.alloc_stack(size * n, *align);
                self.set(st, *dst, Val::I(a));
            }
            Inst::ExtractValue { dst, a, idx } => {
                let mut v = Self::ev(fr, a);
                for i in idx.iter() {
                    let Val::A(x) = &v else { return unsup("extractvalue") };
                    v = x[*i as usize].clone();
                }
                fr.regs[*dst as usize] = v;
            }
            Inst::InsertValue { dst, a, v, idx } => {
                let mut base = Self::ev(fr, a);
                let x = Self::ev(fr, v);
                fn ins(b: &mut Val, idx: &[u32], x: Val) -> bool {
                    let Val::A(v) = b else { return false };
                    let v = Rc::make_mut(v);
                    if idx.len() == 1 {
                        v[idx[0] as usize] = x;
                        true
                    } else {
                        ins(&mut v[idx[0] as usize], &idx[1..], x)
                    }
                }
                if !ins(&mut base, idx, x) {
                    return unsup("insertvalue");
                }
                fr.regs[*dst as usize] = base;
            }
            Inst::ExtractElement { dst, a, i } => {
                let v = Self::ev(fr, a);
                let i = Self::ev(fr, i);
                let i = self.concretize(st, &i)? as usize;
                let Val::A(x) = &v else { return unsup("extractelement") };
                let r = x.get(i).cloned().unwrap_or(Val::I(0));
                self.set(st, *dst, r);
            }
            Inst::InsertElement { dst, a, v, i } => {
                let b = Self::ev(fr, a);
                let x = Self::ev(fr, v);
                let i = Self::ev(fr, i);
                let i = self.concretize(st, &i)? as usize;
                let Val::A(mut vv) = b else { return unsup("insertelement") };
                if i < vv.len() {
                    Rc::make_mut(&mut vv)[i] = x;
                }
                self.set(st, *dst, Val::A(vv));
            }
            Inst::Shuffle { dst, a, b, n, m } => {
                let (x, y) = (Self::ev(fr, a), Self::ev(fr, b));
                let (Val::A(x), Val::A(y)) = (&x, &y) else { return unsup("shufflevector") };
                let out = m
                    .iter()
                    .map(|&i| {
                        if i < 0 {
                            zero_like(&x[0])
                        } else if (i as u32) < *n {
                            x[i as usize].clone()
                        } else {
                            y[i as usize - *n as usize].clone()
                        }
                    })
                    .collect();
                self.set(st, *dst, Val::A(Rc::new(out)));
            }
            Inst::Copy { dst, a } => {
                let v = Self::ev(fr, a);
                fr.regs[*dst as usize] = v;
            }
            Inst::FCmp { p, w: _, lanes, dst, a, b } => {
                let (x, y) = (Self::ev(fr, a), Self::ev(fr, b));
                let Inst::FCmp { w, .. } = inst else { unreachable!() };
                if *lanes == 0 {
                    let (xr, yr) = (self.r(&x, *w), self.r(&y, *w));
                    let r = self.cx.fcmp(p, xr, yr);
                    let v = self.v(r);
                    self.set(st, *dst, v);
                } else {
                    let (Val::A(x), Val::A(y)) = (&x, &y) else { return unsup("vector fcmp") };
                    let mut out = vec![];
                    for i in 0..x.len() {
                        let (xr, yr) = (self.r(&x[i], *w), self.r(&y[i], *w));
                        let r = self.cx.fcmp(p, xr, yr);
                        out.push(self.v(r));
                    }
                    self.set(st, *dst, Val::A(Rc::new(out)));
                }
            }
            Inst::FNeg { w, lanes, dst, a } => {
                let x = Self::ev(fr, a);
                let neg = |s: &mut Self, v: &Val| {
                    let r = s.r(v, *w);
                    let k = s.cx.cst(*w, 1u128 << (*w - 1));
                    let r = s.cx.bin(Op::Xor, r, k);
                    s.v(r)
                };
                let v = if *lanes == 0 {
                    neg(self, &x)
                } else {
                    let Val::A(x) = &x else { return unsup("vector fneg") };
                    let mut out = vec![];
                    for e in x.iter() {
                        out.push(neg(self, e));
                    }
                    Val::A(Rc::new(out))
                };
                self.set(st, *dst, v);
            }
            Inst::Rmw { op, w, ty, dst, p, v } => {
                let a = Self::ev(fr, p);
                let x = Self::ev(fr, v);
                let old = self.load_ty(st, *ty, &a)?;
                let (o, n) = (self.r(&old, *w), self.r(&x, *w));
                let nv = match op {
                    RmwOp::Xchg => n,
                    RmwOp::Add => self.cx.bin(Op::Add, o, n),
                    RmwOp::Sub => self.cx.bin(Op::Sub, o, n),
                    RmwOp::And => self.cx.bin(Op::And, o, n),
                    RmwOp::Or => self.cx.bin(Op::Or, o, n),
                    RmwOp::Xor => self.cx.bin(Op::Xor, o, n),
                    RmwOp::Nand => {
                        let x = self.cx.bin(Op::And, o, n);
                        self.cx.not(x)
                    }
                    _ => {
                        let c = match op {
                            RmwOp::Max => self.cx.bin(Op::Slt, n, o),
                            RmwOp::Min => self.cx.bin(Op::Slt, o, n),
                            RmwOp::UMax => self.cx.bin(Op::Ult, n, o),
                            _ => self.cx.bin(Op::Ult, o, n),
                        };
                        self.cx.ite(c, o, n)
                    }
                };
                let nv = self.v(nv);
                self.store_ty(st, *ty, &a, &nv)?;
                self.set(st, *dst, old);
            }
            Inst::CmpXchg { w, ty, dst, p, c, n } => {
                let (a, c, n) = (Self::ev(fr, p), Self::ev(fr, c), Self::ev(fr, n));
                let old = self.load_ty(st, *ty, &a)?;
                let (o, cr) = (self.r(&old, *w), self.r(&c, *w));
                let e = self.cx.bin(Op::Eq, o, cr);
                let ok = self.decide(st, e)?;
                if ok {
                    self.store_ty(st, *ty, &a, &n)?;
                }
                self.set(st, *dst, Val::A(Rc::new(vec![old, Val::I(ok as u64)])));
            }
            Inst::Unreachable => {
                let m = st.model.clone();
                let f = demangle(st.frames.last().unwrap().func.name);
                self.report(st, &m, "unreachable", format!("unreachable code reached in {f}"));
                return Err(End::Violation("unreachable".into(), String::new()));
            }
            Inst::Nop => {}
            Inst::Bad(s) => return unsup(format!("instruction {s}")),
        }
        Ok(false)
    }
    pub fn sel(&mut self, c: &Val, w: u16, a: &Val, b: &Val) -> Val {
        match c {
            Val::I(k) => if k & 1 == 1 { a.clone() } else { b.clone() },
            Val::S(c) => {
                let (x, y) = (self.r(a, w), self.r(b, w));
                let r = self.cx.ite(*c, x, y);
                self.v(r)
            }
            _ => panic!("select condition"),
        }
    }
    fn sel_ty(&mut self, ty: Ty, c: &Val, a: &Val, b: &Val) -> Val {
        match self.w.tk(ty).clone() {
            TyK::Struct(f, _) => {
                let (Val::A(x), Val::A(y)) = (a, b) else { panic!() };
                let out = f.iter().enumerate().map(|(i, t)| self.sel_ty(*t, c, &x[i], &y[i])).collect();
                Val::A(Rc::new(out))
            }
            TyK::Arr(_, e) | TyK::Vec(_, e) => {
                let (Val::A(x), Val::A(y)) = (a, b) else { panic!() };
                let out = (0..x.len()).map(|i| self.sel_ty(e, c, &x[i], &y[i])).collect();
                Val::A(Rc::new(out))
            }
            _ => {
                let w = self.w.wl(ty).0;
                self.sel(c, w, a, b)
            }
        }
    }
    pub fn icmp(&mut self, p: IPred, w: u16, x: &Val, y: &Val) -> Val {
        if let (Val::I(a), Val::I(b)) = (x, y) {
            let sx = |v: u64| -> i64 {
                if w >= 64 {
                    v as i64
                } else {
                    ((v << (64 - w)) as i64) >> (64 - w)
                }
            };
            let r = match p {
                IPred::Eq => a == b,
                IPred::Ne => a != b,
                IPred::Ult => a < b,
                IPred::Ule => a <= b,
                IPred::Ugt => a > b,
                IPred::Uge => a >= b,
                IPred::Slt => sx(*a) < sx(*b),
                IPred::Sle => sx(*a) <= sx(*b),
                IPred::Sgt => sx(*a) > sx(*b),
                IPred::Sge => sx(*a) >= sx(*b),
            };
            return Val::I(r as u64);
        }
        let (a, b) = (self.r(x, w), self.r(y, w));
        let r = match p {
            IPred::Eq => self.cx.bin(Op::Eq, a, b),
            IPred::Ne => {
                let e = self.cx.bin(Op::Eq, a, b);
                self.cx.not(e)
            }
            IPred::Ult => self.cx.bin(Op::Ult, a, b),
            IPred::Ule => self.cx.bin(Op::Ule, a, b),
            IPred::Ugt => self.cx.bin(Op::Ult, b, a),
            IPred::Uge => self.cx.bin(Op::Ule, b, a),
            IPred::Slt => self.cx.bin(Op::Slt, a, b),
            IPred::Sle => self.cx.bin(Op::Sle, a, b),
            IPred::Sgt => self.cx.bin(Op::Slt, b, a),
            IPred::Sge => self.cx.bin(Op::Sle, b, a),
        };
        self.v(r)
    }
    pub fn binop(&mut self, st: &mut State, op: BinOp, w: u16, x: &Val, y: &Val) -> R<Val> {
        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
            // division by zero is undefined behaviour
            let yr = self.r(y, w);
            let z = self.cx.cst(w, 0);
            let c = self.cx.bin(Op::Eq, yr, z);
            if self.decide(st, c)? {
                let m = st.model.clone();
                self.report(st, &m, "div", "division by zero".into());
                return Err(End::Violation("div".into(), String::new()));
            }
        }
        let (a, b) = (self.r(x, w), self.r(y, w));
        let r = match op {
            BinOp::Add => self.cx.bin(Op::Add, a, b),
            BinOp::Sub => self.cx.bin(Op::Sub, a, b),
            BinOp::Mul => self.cx.bin(Op::Mul, a, b),
            BinOp::UDiv => self.cx.bin(Op::UDiv, a, b),
            BinOp::SDiv => self.cx.bin(Op::SDiv, a, b),
            BinOp::URem => self.cx.bin(Op::URem, a, b),
            BinOp::SRem => self.cx.bin(Op::SRem, a, b),
            BinOp::Shl => self.cx.bin(Op::Shl, a, b),
            BinOp::LShr => self.cx.bin(Op::LShr, a, b),
            BinOp::AShr => self.cx.bin(Op::AShr, a, b),
            BinOp::And => self.cx.bin(Op::And, a, b),
            BinOp::Or => self.cx.bin(Op::Or, a, b),
            BinOp::Xor => self.cx.bin(Op::Xor, a, b),
            BinOp::FAdd => self.cx.fp(Op::FAdd, w, a, b, 0),
            BinOp::FSub => self.cx.fp(Op::FSub, w, a, b, 0),
            BinOp::FMul => self.cx.fp(Op::FMul, w, a, b, 0),
            BinOp::FDiv => self.cx.fp(Op::FDiv, w, a, b, 0),
            BinOp::FRem => self.cx.fp(Op::FRem, w, a, b, 0),
        };
        Ok(self.v(r))
    }
    fn cast1(&mut self, op: CastOp, fw: u16, tw: u16, x: &Val) -> Val {
        if let Val::I(v) = x {
            match op {
                CastOp::Trunc if tw <= 64 => return Val::I(*v & mask(tw) as u64),
                CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr if tw <= 64 => return Val::I(*v & mask(tw) as u64),
                _ => {}
            }
        }
        let a = self.r(x, fw);
        let r = match op {
            CastOp::Trunc => self.cx.extract(a, tw - 1, 0),
            CastOp::ZExt => self.cx.zext(a, tw),
            CastOp::SExt => self.cx.sext(a, tw),
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if tw > fw {
                    self.cx.zext(a, tw)
                } else {
                    self.cx.extract(a, tw - 1, 0)
                }
            }
            CastOp::BitCast => a,
            CastOp::FPTrunc | CastOp::FPExt => self.cx.fp(Op::FCvt, tw, a, 0, 0),
            CastOp::FPToUI => self.cx.fp(Op::FToUI, tw, a, 0, 0),
            CastOp::FPToSI => self.cx.fp(Op::FToSI, tw, a, 0, 0),
            CastOp::UIToFP => self.cx.fp(Op::UIToF, tw, a, 0, 0),
            CastOp::SIToFP => self.cx.fp(Op::SIToF, tw, a, 0, 0),
        };
        self.v(r)
    }
    fn cast(&mut self, op: CastOp, from: Ty, to: Ty, x: &Val) -> R<Val> {
        let (fw, fl) = self.w.wl(from);
        let (tw, tl) = self.w.wl(to);
        if op == CastOp::BitCast && (fl > 0 || tl > 0) {
            if fl == tl {
                return Ok(x.clone());
            }
            // through bits
            let lanes: Vec<Val> = match x {
                Val::A(v) => v.to_vec(),
                v => vec![v.clone()],
            };
            let total = fw as u32 * lanes.len() as u32;
            if total <= 128 {
                let r = self.pack_bits(&lanes, fw);
                if tl == 0 {
                    return Ok(self.v(r));
                }
                let mut out = vec![];
                for i in 0..tl as u16 {
                    let e = self.cx.extract(r, (i + 1) * tw - 1, i * tw);
                    out.push(self.v(e));
                }
                return Ok(Val::A(Rc::new(out)));
            }
            if tl == 0 {
                return unsup("wide bitcast");
            }
            let mut out = vec![];
            if tw >= fw {
                let k = (tw / fw) as usize;
                for c in lanes.chunks(k) {
                    let r = self.pack_bits(c, fw);
                    out.push(self.v(r));
                }
            } else {
                for l in lanes {
                    let r = self.r(&l, fw);
                    for i in 0..fw / tw {
                        let e = self.cx.extract(r, (i + 1) * tw - 1, i * tw);
                        out.push(self.v(e));
                    }
                }
            }
            return Ok(Val::A(Rc::new(out)));
        }
        if fl == 0 {
            return Ok(self.cast1(op, fw, tw, x));
        }
        let Val::A(v) = x else { return unsup("vector cast") };
        let mut out = vec![];
        for e in v.iter() {
            out.push(self.cast1(op, fw, tw, e));
        }
        Ok(Val::A(Rc::new(out)))
    }

    // ---------------------------------------------------------------- calls
    fn call(&mut self, st: &mut State, c: &'static CallI) -> R<bool> {
        let fid = match &c.callee {
            Callee::Fn(f) => *f,
            Callee::Reg(r) => {
                let v = st.frames.last().unwrap().regs[*r as usize].clone();
                let a = self.concretize(st, &v)?;
                let key = (a >> 32) as u32;
                if key < FNS || (key - FNS) as usize >= self.w.fns.len() {
                    let m = st.model.clone();
                    self.report(st, &m, "memory", "call through an invalid function pointer".into());
                    return Err(End::Violation("memory".into(), String::new()));
                }
                key - FNS
            }
            Callee::Asm(txt) => {
                if contains(txt, b"cpuid") {
                    let z = self.w.zero(c.ret);
                    self.set(st, c.dst, z);
                    return Ok(false);
                }
                if txt.is_empty() {
                    // black_box-like barrier
                    if c.dst != NODST && !c.args.is_empty() {
                        let v = Self::ev(st.frames.last().unwrap(), &c.args[0]);
                        self.set(st, c.dst, v);
                    }
                    return Ok(false);
                }
                return unsup(format!("inline asm {}", String::from_utf8_lossy(txt)));
            }
        };
        self.enter(st, fid, c)
    }
    fn enter(&mut self, st: &mut State, fid: u32, c: &'static CallI) -> R<bool> {
        self.w.fns[fid as usize].calls += 1;
        match self.w.fns[fid as usize].state {
            FState::Builtin(b) => {
                let fr = st.frames.last().unwrap();
                let args: Vec<Val> = c.args.iter().map(|o| Self::ev(fr, o)).collect();
                match self.builtin(st, b, fid, c, &args)? {
                    Some(v) => {
                        self.set(st, c.dst, v);
                        match c.normal {
                            Some(e) => {
                                self.goto(st, e);
                                Ok(true)
                            }
                            None => Ok(false),
                        }
                    }
                    None => self.enter_body(st, fid, c),
                }
            }
            _ => self.enter_body(st, fid, c),
        }
    }
    fn enter_body(&mut self, st: &mut State, fid: u32, c: &'static CallI) -> R<bool> {
        if self.w.fns[fid as usize].state == FState::Missing {
            return unsup(format!("external function {}", String::from_utf8_lossy(self.w.fns[fid as usize].name)));
        }
        let f = match self.w.get_func(fid) {
            Some(f) => f,
            None => return unsup(format!("external function {}", String::from_utf8_lossy(self.w.fns[fid as usize].name))),
        };
        let mut regs = vec![Val::I(0); f.nregs as usize];
        {
            let fr = st.frames.last().unwrap();
            for (i, p) in f.params.iter().enumerate() {
                if let Some(o) = c.args.get(i) {
                    regs[*p as usize] = Self::ev(fr, o);
                }
            }
        }
        let sp = st.mem.nstack;
        for (i, size) in &c.byval {
            let p = f.params[*i as usize];
            let src = regs[p as usize].clone();
            let a = st.mem.alloc_stack(*size, 16);
            self.copy_mem(st, &Val::I(a), &src, *size)?;
            regs[p as usize] = Val::I(a);
        }
        if st.frames.len() > 2000 {
            return Err(End::Limit("call depth".into()));
        }
        if self.traceon {
            eprintln!("{}> {}", " ".repeat(st.frames.len()), demangle(f.name));
        }
        st.frames.push(Frame { func: f, regs, block: 0, ip: 0, dst: c.dst, normal: c.normal, sp });
        self.st.max_depth = self.st.max_depth.max(st.frames.len());
        Ok(true)
    }
}

pub fn zero_like(v: &Val) -> Val {
    match v {
        Val::W(_) => Val::W([0, 0]),
        Val::A(a) => Val::A(Rc::new(a.iter().map(zero_like).collect())),
        _ => Val::I(0),
    }
}

/// Rust legacy symbol -> readable path
pub fn demangle(n: &[u8]) -> String {
    let s = String::from_utf8_lossy(n).into_owned();
    if !s.starts_with("_ZN") {
        return s;
    }
    let b = s.as_bytes();
    let mut i = 3;
    let mut parts: Vec<String> = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut len = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            len = len * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + len > b.len() {
            return s;
        }
        parts.push(s[i..i + len].to_string());
        i += len;
    }
    if let Some(l) = parts.last() {
        if l.len() == 17 && l.starts_with('h') {
            parts.pop();
        }
    }
    let mut t = parts.join("::");
    for (a, b) in [
        ("_$LT$", "<"),
        ("$LT$", "<"),
        ("$GT$", ">"),
        ("$u20$", " "),
        ("$RF$", "&"),
        ("$BP$", "*"),
        ("$C$", ","),
        ("$LP$", "("),
        ("$RP$", ")"),
        ("$u7b$", "{"),
        ("$u7d$", "}"),
        ("$u5b$", "["),
        ("$u5d$", "]"),
        ("$u27$", "'"),
        ("$u2b$", "+"),
        ("$u3b$", ";"),
        ("$SP$", "@"),
        ("..", "::"),
    ] {
        t = t.replace(a, b);
    }
    t
}
