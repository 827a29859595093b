//! Hash-consed bit-vector expressions (width 1..=128) with local simplification.
//! Floating-point operations are nodes over the IEEE bit patterns.
use std::collections::HashMap;

pub type Ref = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract, // b = lo
    ZExt,
    SExt,
    // floating point (args are bit patterns)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FSqrt,
    FFloor,
    FCeil,
    FTrunc,
    FRint,  // round half even
    FRound, // round half away
    FMin,
    FMax,
    FFma,
    FCvt,  // float -> float of width w
    FToSI, // saturating
    FToUI, // saturating
    SIToF,
    UIToF,
    FPow,
    FExp,
    FLog,
}

pub fn is_fp(op: Op) -> bool {
    (op as u8) >= (Op::FAdd as u8)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Ref, BuildHasher>,
    pub consts: Vec<u128>,
    cmap: HashMap<(u16, u128), Ref, BuildHasher>,
    pub var_w: HashMap<u32, u16>,
    // evaluation cache
    eval_gen: Vec<u32>,
    eval_val: Vec<u128>,
    gen: u32,
    // support sets
    support: Vec<Option<std::rc::Rc<Vec<u32>>>>,
    pub tru: Ref,
    pub fls: Ref,
    // unsigned range of every node
    rng_lo: Vec<u128>,
    rng_hi: Vec<u128>,
    ext_memo: HashMap<(Ref, u16, u16), Ref, BuildHasher>,
}

#[derive(Clone, Copy, Default)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
}
pub type BuildHasher = std::hash::BuildHasherDefault<FxH>;

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub fn half_to_f64(h: u16) -> f64 {
    let s = (h >> 15) as u64;
    let e = ((h >> 10) & 0x1f) as i32;
    let m = (h & 0x3ff) as u64;
    let v = if e == 0 {
        (m as f64) * (2.0f64).powi(-24)
    } else if e == 31 {
        if m == 0 {
            f64::INFINITY
        } else {
            return f64::from_bits(s << 63 | 0x7ff8_0000_0000_0000 | (m << 42));
        }
    } else {
        (1.0 + m as f64 / 1024.0) * (2.0f64).powi(e - 15)
    };
    if s == 1 {
        -v
    } else {
        v
    }
}
pub fn f64_to_half(x: f64) -> u16 {
    // round-to-nearest-even
    let s = ((x.to_bits() >> 63) as u16) << 15;
    if x.is_nan() {
        return s | 0x7e00 | ((x.to_bits() >> 42) & 0x3ff) as u16;
    }
    let a = x.abs();
    if a >= 65520.0 {
        return s | 0x7c00;
    }
    if a == 0.0 {
        return s;
    }
    // find exponent
    let bits = a.to_bits();
    let mut e = ((bits >> 52) as i32) - 1023;
    if e < -14 {
        e = -14;
    }
    // quantum 2^(e-10)
    let q = (2.0f64).powi(e - 10);
    let n = (a / q).round_ties_even();
    let n = n as u32; // up to 2048
    if e == -14 && n < 1024 {
        return s | n as u16;
    }
    let (n, e) = if n >= 2048 { (n / 2, e + 1) } else { (n, e) };
    if e > 15 {
        return s | 0x7c00;
    }
    s | (((e + 15) as u16) << 10) | ((n - 1024) as u16)
}

pub fn fp_eval(op: Op, w: u16, aw: u16, a: u128, b: u128, c: u128) -> u128 {
    // aw: width of operand a.
    macro_rules! bin {
        ($f:expr, $g:expr) => {
            match w {
                64 => $f(f64::from_bits(a as u64), f64::from_bits(b as u64)).to_bits() as u128,
                32 => $g(f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u128,
                16 => f64_to_half($f(half_to_f64(a as u16), half_to_f64(b as u16))) as u128,
                _ => panic!("fp width {w}"),
            }
        };
    }
    macro_rules! un {
        ($f:expr, $g:expr) => {
            match w {
                64 => $f(f64::from_bits(a as u64)).to_bits() as u128,
                32 => $g(f32::from_bits(a as u32)).to_bits() as u128,
                16 => f64_to_half($f(half_to_f64(a as u16))) as u128,
                _ => panic!("fp width {w}"),
            }
        };
    }
    match op {
        Op::FAdd => bin!(|x: f64, y: f64| x + y, |x: f32, y: f32| x + y),
        Op::FSub => bin!(|x: f64, y: f64| x - y, |x: f32, y: f32| x - y),
        Op::FMul => bin!(|x: f64, y: f64| x * y, |x: f32, y: f32| x * y),
        Op::FDiv => bin!(|x: f64, y: f64| x / y, |x: f32, y: f32| x / y),
        Op::FRem => bin!(|x: f64, y: f64| x % y, |x: f32, y: f32| x % y),
        Op::FMin => bin!(f64::min, f32::min),
        Op::FMax => bin!(f64::max, f32::max),
        Op::FPow => bin!(f64::powf, f32::powf),
        Op::FExp => un!(f64::exp, f32::exp),
        Op::FLog => match b {
            0 => un!(f64::ln, f32::ln),
            2 => un!(f64::log2, f32::log2),
            _ => un!(f64::log10, f32::log10),
        },
        Op::FSqrt => un!(f64::sqrt, f32::sqrt),
        Op::FFloor => un!(f64::floor, f32::floor),
        Op::FCeil => un!(f64::ceil, f32::ceil),
        Op::FTrunc => un!(f64::trunc, f32::trunc),
        Op::FRint => un!(f64::round_ties_even, f32::round_ties_even),
        Op::FRound => un!(f64::round, f32::round),
        Op::FFma => match w {
            64 => f64::mul_add(
                f64::from_bits(a as u64),
                f64::from_bits(b as u64),
                f64::from_bits(c as u64),
            )
            .to_bits() as u128,
            32 => f32::mul_add(
                f32::from_bits(a as u32),
                f32::from_bits(b as u32),
                f32::from_bits(c as u32),
            )
            .to_bits() as u128,
            _ => panic!("fma width"),
        },
        Op::FCvt => {
            if aw == w {
                return a;
            }
            match (aw, w) {
                (32, 64) => (f32::from_bits(a as u32) as f64).to_bits() as u128,
                (64, 32) => (f64::from_bits(a as u64) as f32).to_bits() as u128,
                (16, 64) => half_to_f64(a as u16).to_bits() as u128,
                (16, 32) => (half_to_f64(a as u16) as f32).to_bits() as u128,
                (64, 16) => f64_to_half(f64::from_bits(a as u64)) as u128,
                (32, 16) => f64_to_half(f32::from_bits(a as u32) as f64) as u128,
                _ => panic!("fcvt {aw} {w}"),
            }
        }
        Op::FToSI | Op::FToUI => {
            let x = match aw {
                64 => f64::from_bits(a as u64),
                32 => f32::from_bits(a as u32) as f64,
                16 => half_to_f64(a as u16),
                _ => panic!(),
            };
            if op == Op::FToSI {
                let v = x as i128;
                let (lo, hi) = if w >= 128 {
                    (i128::MIN, i128::MAX)
                } else {
                    (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
                };
                (v.clamp(lo, hi) as u128) & mask(w)
            } else {
                let v = x as u128;
                v.min(mask(w))
            }
        }
        Op::SIToF => {
            let v = sext(a, aw);
            match w {
                64 => (v as f64).to_bits() as u128,
                32 => (v as f32).to_bits() as u128,
                _ => f64_to_half(v as f64) as u128,
            }
        }
        Op::UIToF => match w {
            64 => (a as f64).to_bits() as u128,
            32 => (a as f32).to_bits() as u128,
            _ => f64_to_half(a as f64) as u128,
        },
        _ => panic!("not fp"),
    }
}

pub fn bin_eval(op: Op, w: u16, a: u128, b: u128) -> u128 {
    // w is the operand width
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => panic!("bin_eval {op:?}"),
    }
}

pub type Model = HashMap<u32, u128, BuildHasher>;

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: Vec::new(),
            map: HashMap::default(),
            consts: Vec::new(),
            cmap: HashMap::default(),
            var_w: HashMap::new(),
            eval_gen: Vec::new(),
            eval_val: Vec::new(),
            gen: 0,
            support: Vec::new(),
            tru: 0,
            fls: 0,
            rng_lo: vec![],
            rng_hi: vec![],
            ext_memo: HashMap::default(),
        };
        // index 0 is reserved (never a valid expression reference)
        c.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0 });
        c.consts.push(0);
        c.tru = c.cst(1, 1);
        c.fls = c.cst(1, 0);
        c
    }
    fn push(&mut self, n: Node) -> Ref {
        let (lo, hi) = if self.nodes.is_empty() { (0, u128::MAX) } else { (self.umin_calc(&n), self.umax_calc(&n)) };
        self.rng_lo.push(lo);
        self.rng_hi.push(hi);
        self.nodes.push(n);
        self.eval_gen.push(0);
        self.eval_val.push(0);
        self.support.push(None);
        (self.nodes.len() - 1) as Ref
    }
    fn mk(&mut self, op: Op, w: u16, a: u32, b: u32, c: u32) -> Ref {
        debug_assert!(w >= 1 && w <= 128);
        let n = Node { op, w, a, b, c };
        if let Some(&r) = self.map.get(&n) {
            return r;
        }
        let r = self.push(n);
        self.map.insert(n, r);
        r
    }
    pub fn cst(&mut self, w: u16, v: u128) -> Ref {
        let v = v & mask(w);
        if let Some(&r) = self.cmap.get(&(w, v)) {
            return r;
        }
        self.consts.push(v);
        let idx = (self.consts.len() - 1) as u32;
        let r = self.push(Node { op: Op::Const, w, a: idx, b: 0, c: 0 });
        self.cmap.insert((w, v), r);
        r
    }
    pub fn var(&mut self, id: u32, w: u16) -> Ref {
        self.var_w.insert(id, w);
        self.mk(Op::Var, w, id, 0, 0)
    }
    #[inline]
    pub fn w(&self, r: Ref) -> u16 {
        self.nodes[r as usize].w
    }
    #[inline]
    pub fn n(&self, r: Ref) -> Node {
        self.nodes[r as usize]
    }
    #[inline]
    pub fn as_const(&self, r: Ref) -> Option<u128> {
        let n = &self.nodes[r as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn not(&mut self, a: Ref) -> Ref {
        let n = self.n(a);
        if let Some(v) = self.as_const(a) {
            return self.cst(n.w, !v);
        }
        match n.op {
            Op::Not => n.a,
            // !(a<b) == b<=a
            Op::Ult => self.bin(Op::Ule, n.b, n.a),
            Op::Ule => self.bin(Op::Ult, n.b, n.a),
            Op::Slt => self.bin(Op::Sle, n.b, n.a),
            Op::Sle => self.bin(Op::Slt, n.b, n.a),
            Op::Ite if n.w == 1 && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) => {
                let b = self.not(n.b);
                let c = self.not(n.c);
                self.ite(n.a, b, c)
            }
            _ => self.mk(Op::Not, n.w, a, 0, 0),
        }
    }
    /// upper bound on the unsigned value
    #[inline]
    pub fn umax_of(&self, r: Ref, _depth: u32) -> u128 {
        self.rng_hi[r as usize]
    }
    #[inline]
    pub fn umin_of(&self, r: Ref, _depth: u32) -> u128 {
        self.rng_lo[r as usize]
    }
    fn umax_calc(&self, n: &Node) -> u128 {
        let m = mask(n.w);
        match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::ZExt => self.umax_of(n.a, 0),
            Op::And => self.umax_of(n.a, 0).min(self.umax_of(n.b, 0)),
            Op::Or | Op::Xor => {
                let x = self.umax_of(n.a, 0).max(self.umax_of(n.b, 0));
                if x == 0 {
                    0
                } else {
                    let bits = 128 - x.leading_zeros() as u16;
                    mask(bits).min(m)
                }
            }
            Op::LShr => match self.as_const(n.b) {
                Some(s) if s < n.w as u128 => self.umax_of(n.a, 0) >> s,
                Some(_) => 0,
                None => self.umax_of(n.a, 0),
            },
            Op::Shl => match self.as_const(n.b) {
                Some(s) if s < n.w as u128 => {
                    let x = self.umax_of(n.a, 0);
                    if x != 0 && (x.leading_zeros() as u128) < s {
                        m
                    } else {
                        (x << s).min(m)
                    }
                }
                _ => m,
            },
            Op::Add => {
                let x = self.umax_of(n.a, 0);
                let y = self.umax_of(n.b, 0);
                match x.checked_add(y) {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            Op::Mul => {
                let x = self.umax_of(n.a, 0);
                let y = self.umax_of(n.b, 0);
                match x.checked_mul(y) {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            Op::URem => match self.as_const(n.b) {
                Some(c) if c > 0 => (c - 1).min(self.umax_of(n.a, 0)),
                _ => self.umax_of(n.a, 0),
            },
            Op::UDiv => match self.as_const(n.b) {
                Some(c) if c > 0 => self.umax_of(n.a, 0) / c,
                _ => m,
            },
            Op::Sub if self.umin_of(n.a, 0) >= self.umax_of(n.b, 0) => self.umax_of(n.a, 0) - self.umin_of(n.b, 0),
            Op::SExt if self.umax_of(n.a, 0) <= mask(self.w(n.a)) >> 1 => self.umax_of(n.a, 0),
            Op::Ite => self.umax_of(n.b, 0).max(self.umax_of(n.c, 0)),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.umax_of(n.a, 0) << lw) | self.umax_of(n.b, 0)
            }
            Op::Extract => {
                if n.b == 0 {
                    self.umax_of(n.a, 0).min(m)
                } else {
                    (self.umax_of(n.a, 0) >> n.b).min(m)
                }
            }
            _ => m,
        }
    }
    /// lower bound on the unsigned value
    fn umin_calc(&self, n: &Node) -> u128 {
        match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::ZExt => self.umin_of(n.a, 0),
            Op::Or => self.umin_of(n.a, 0).max(self.umin_of(n.b, 0)),
            Op::Add => {
                let x = self.umax_of(n.a, 0);
                let y = self.umax_of(n.b, 0);
                match x.checked_add(y) {
                    Some(s) if s <= mask(n.w) => self.umin_of(n.a, 0) + self.umin_of(n.b, 0),
                    _ => 0,
                }
            }
            Op::Ite => self.umin_of(n.b, 0).min(self.umin_of(n.c, 0)),
            _ => 0,
        }
    }
    pub fn bin(&mut self, op: Op, a: Ref, b: Ref) -> Ref {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = bin_eval(op, w, x, y);
            return self.cst(rw, v);
        }
        let m = mask(w);
        // canonical order for commutative operators: constant on the right, else smaller ref first
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    return self.bin2(op, w, rw, b, a, cb, ca, m);
                }
            }
            _ => {}
        }
        self.bin2(op, w, rw, a, b, ca, cb, m)
    }
    #[allow(clippy::too_many_arguments)]
    fn bin2(&mut self, op: Op, w: u16, rw: u16, a: Ref, b: Ref, ca: Option<u128>, cb: Option<u128>, m: u128) -> Ref {
        let na = self.n(a);
        let nb = self.n(b);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if w > 8 && self.rng_hi[a as usize] <= 64 && self.rng_hi[b as usize] <= 64 {
                    if let Some(r) = self.ind_sum(w, a, b) {
                        return r;
                    }
                }
                if let Some(y) = cb {
                    // (x + c1) + c2
                    if na.op == Op::Add {
                        if let Some(c1) = self.as_const(na.b) {
                            let k = self.cst(w, c1.wrapping_add(y));
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                    if na.op == Op::Sub {
                        if let Some(c1) = self.as_const(na.a) {
                            let k = self.cst(w, c1.wrapping_add(y));
                            return self.bin(Op::Sub, k, na.b);
                        }
                    }
                    if na.op == Op::Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                        return self.map_ite(op, na, b);
                    }
                }
                // (x - y) + y = x
                if na.op == Op::Sub && na.b == b {
                    return na.a;
                }
                if nb.op == Op::Sub && nb.b == a {
                    return nb.a;
                }
                // a quotient times its divisor, plus the remainder
                if let Some((x, true)) = self.div_sum(a, b) {
                    return x;
                }
                // hoist constants: (x + c) + y -> (x + y) + c
                if na.op == Op::Add && self.as_const(na.b).is_some() && cb.is_none() {
                    let s = self.bin(Op::Add, na.a, b);
                    return self.bin(Op::Add, s, na.b);
                }
                if nb.op == Op::Add && self.as_const(nb.b).is_some() {
                    let s = self.bin(Op::Add, a, nb.a);
                    return self.bin(Op::Add, s, nb.b);
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    let k = self.cst(w, y.wrapping_neg());
                    return self.bin(Op::Add, a, k);
                }
                // (x + y) - y
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    // (x + c) - y -> (x - y) + c
                    if self.as_const(na.b).is_some() {
                        let s = self.bin(Op::Sub, na.a, b);
                        return self.bin(Op::Add, s, na.b);
                    }
                }
                if nb.op == Op::Add {
                    // a - (a + y) -> 0 - y
                    if nb.a == a {
                        let z = self.cst(w, 0);
                        return self.bin(Op::Sub, z, nb.b);
                    }
                    if nb.b == a {
                        let z = self.cst(w, 0);
                        return self.bin(Op::Sub, z, nb.a);
                    }
                    if let Some(c) = self.as_const(nb.b) {
                        let s = self.bin(Op::Sub, a, nb.a);
                        let k = self.cst(w, c.wrapping_neg());
                        return self.bin(Op::Add, s, k);
                    }
                }
                if nb.op == Op::Sub {
                    // a - (a - y) = y
                    if nb.a == a {
                        return nb.b;
                    }
                    // 0 - (x - y) = y - x
                    if ca == Some(0) {
                        return self.bin(Op::Sub, nb.b, nb.a);
                    }
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, k);
                    }
                    if na.op == Op::Mul {
                        if let Some(c1) = self.as_const(na.b) {
                            let k = self.cst(w, c1.wrapping_mul(y));
                            return self.bin(Op::Mul, na.a, k);
                        }
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, k);
                    }
                }
            }
            Op::URem => {
                if cb == Some(1) {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(w, y - 1);
                        return self.bin(Op::And, a, k);
                    }
                }
            }
            Op::SDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            Op::SRem => {
                if cb == Some(1) {
                    return self.cst(w, 0);
                }
            }
            Op::Shl => {
                if cb == Some(0) || ca == Some(0) {
                    return a;
                }
                if let Some(s) = cb {
                    if s >= w as u128 {
                        return self.cst(w, 0);
                    }
                    if na.op == Op::Shl {
                        if let Some(s1) = self.as_const(na.b) {
                            let t = s + s1;
                            if t >= w as u128 {
                                return self.cst(w, 0);
                            }
                            let k = self.cst(w, t);
                            return self.bin(Op::Shl, na.a, k);
                        }
                    }
                    // shl x s = concat(extract(w-s-1..0, x), 0:s)
                    let s = s as u16;
                    let lo = self.extract(a, w - s - 1, 0);
                    let z = self.cst(s, 0);
                    return self.concat(lo, z);
                }
            }
            Op::LShr => {
                if cb == Some(0) || ca == Some(0) {
                    return a;
                }
                if let Some(s) = cb {
                    if s >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let s = s as u16;
                    let hi = self.extract(a, w - 1, s);
                    return self.zext(hi, w);
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(s) = cb {
                    let s = if s >= w as u128 { w - 1 } else { s as u16 };
                    let hi = self.extract(a, w - 1, s);
                    return self.sext(hi, w);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                    return self.cst(w, 0);
                }
                if w == 1 {
                    // absorption for conjunctions
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if let Some(r) = self.and_zero(a, b, false) {
                        return r;
                    }
                }
                if let Some(y) = cb {
                    // low mask -> zext(extract)
                    let t = y.trailing_ones() as u16;
                    if y == mask(t) && t < w {
                        let lo = self.extract(a, t - 1, 0);
                        return self.zext(lo, w);
                    }
                    // contiguous mask
                    let tz = y.trailing_zeros() as u16;
                    let ones = (y >> tz).trailing_ones() as u16;
                    if (y >> tz) == mask(ones) {
                        let mid = self.extract(a, tz + ones - 1, tz);
                        let z = self.cst(tz, 0);
                        let c = self.concat(mid, z);
                        return self.zext(c, w);
                    }
                    if na.op == Op::And {
                        if let Some(c1) = self.as_const(na.b) {
                            let k = self.cst(w, c1 & y);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                }
                // disjoint supports of bits -> 0 handled poorly; skip
            }
            Op::Or => {
                if a == b || cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                    return self.cst(w, m);
                }
                if w == 1 {
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if let Some(r) = self.and_zero(a, b, true) {
                        return r;
                    }
                }
                if w > 1 {
                    // or of disjoint pieces: concat(x, 0:k) | zext(y:k)  ->  concat(x', y')
                    if let Some(r) = self.or_concat(a, b) {
                        return r;
                    }
                    if let Some(r) = self.or_concat(b, a) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return self.not(a);
                }
                // (x ^ y) ^ y
                if na.op == Op::Xor {
                    if na.b == b {
                        return na.a;
                    }
                    if na.a == b {
                        return na.b;
                    }
                    if let (Some(c1), Some(y)) = (self.as_const(na.b), cb) {
                        let k = self.cst(w, c1 ^ y);
                        return self.bin(Op::Xor, na.a, k);
                    }
                }
                if nb.op == Op::Xor {
                    if nb.b == a {
                        return nb.a;
                    }
                    if nb.a == a {
                        return nb.b;
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.tru;
                }
                if w == 1 {
                    if let Some(y) = cb {
                        return if y == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(y) = cb {
                    match na.op {
                        Op::Ite => {
                            let (t, e) = (self.as_const(na.b), self.as_const(na.c));
                            if t.is_some() || e.is_some() {
                                return match (t, e) {
                                    (Some(t), Some(e)) => match (t == y, e == y) {
                                        (true, true) => self.tru,
                                        (true, false) => na.a,
                                        (false, true) => self.not(na.a),
                                        (false, false) => self.fls,
                                    },
                                    (Some(t), None) => {
                                        if t == y {
                                            let x = self.bin(Op::Eq, na.c, b);
                                            self.bin(Op::Or, na.a, x)
                                        } else {
                                            let x = self.bin(Op::Eq, na.c, b);
                                            let nc = self.not(na.a);
                                            self.bin(Op::And, nc, x)
                                        }
                                    }
                                    (None, Some(e)) => {
                                        let x = self.bin(Op::Eq, na.b, b);
                                        if e == y {
                                            let nc = self.not(na.a);
                                            self.bin(Op::Or, nc, x)
                                        } else {
                                            self.bin(Op::And, na.a, x)
                                        }
                                    }
                                    _ => unreachable!(),
                                };
                            }
                        }
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if y > mask(iw) {
                                return self.fls;
                            }
                            let k = self.cst(iw, y);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let t = y & mask(iw);
                            if (sext(t, iw) as u128) & m != y {
                                return self.fls;
                            }
                            let k = self.cst(iw, t);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Add => {
                            if let Some(c) = self.as_const(na.b) {
                                let k = self.cst(w, y.wrapping_sub(c));
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Sub => {
                            if let Some(c) = self.as_const(na.a) {
                                let k = self.cst(w, c.wrapping_sub(y));
                                return self.bin(Op::Eq, na.b, k);
                            }
                            if y == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Xor => {
                            if let Some(c) = self.as_const(na.b) {
                                let k = self.cst(w, y ^ c);
                                return self.bin(Op::Eq, na.a, k);
                            }
                            if y == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Not => {
                            let k = self.cst(w, !y);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kh = self.cst(w - lw, y >> lw);
                            let kl = self.cst(lw, y & mask(lw));
                            let e1 = self.bin(Op::Eq, na.a, kh);
                            if self.as_const(e1) == Some(0) {
                                return self.fls;
                            }
                            let e2 = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, e1, e2);
                        }
                        _ => {}
                    }
                    if self.umax_of(a, 6) < y || self.umin_of(a, 6) > y {
                        return self.fls;
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    // x + y == x + z
                    if na.op == Op::Add && nb.op == Op::Add {
                        if na.b == nb.b {
                            return self.bin(Op::Eq, na.a, nb.a);
                        }
                        if na.a == nb.a {
                            return self.bin(Op::Eq, na.b, nb.b);
                        }
                    }
                    if na.op == Op::Not && nb.op == Op::Not {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.fls;
                }
                if cb == Some(0) || ca == Some(m) {
                    return self.fls;
                }
                if cb == Some(1) {
                    let z = self.cst(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let z = self.cst(w, 0);
                    let e = self.bin(Op::Eq, b, z);
                    return self.not(e);
                }
                if cb == Some(m) {
                    let e = self.bin(Op::Eq, a, b);
                    return self.not(e);
                }
                if self.umax_of(a, 6) < self.umin_of(b, 6) {
                    return self.tru;
                }
                if self.umin_of(a, 6) >= self.umax_of(b, 6) {
                    return self.fls;
                }
                if let Some(r) = self.cmp_ext(op, a, b, ca, cb) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b {
                    return self.tru;
                }
                if cb == Some(m) || ca == Some(0) {
                    return self.tru;
                }
                if cb == Some(0) {
                    return self.bin(Op::Eq, a, b);
                }
                if ca == Some(m) {
                    return self.bin(Op::Eq, a, b);
                }
                if ca == Some(1) {
                    let z = self.cst(w, 0);
                    let e = self.bin(Op::Eq, b, z);
                    return self.not(e);
                }
                if self.umax_of(a, 6) <= self.umin_of(b, 6) {
                    return self.tru;
                }
                if self.umin_of(a, 6) > self.umax_of(b, 6) {
                    return self.fls;
                }
                if let Some(r) = self.cmp_ext(op, a, b, ca, cb) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return if op == Op::Slt { self.fls } else { self.tru };
                }
                // both provably non-negative -> unsigned
                let half = 1u128 << (w - 1);
                if self.umax_of(a, 6) < half && self.umax_of(b, 6) < half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // sext both
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
                // constants at the extreme
                let smin = half;
                let smax = half - 1;
                if op == Op::Slt && (cb == Some(smin) || ca == Some(smax)) {
                    return self.fls;
                }
                if op == Op::Sle && (cb == Some(smax) || ca == Some(smin)) {
                    return self.tru;
                }
                // x <s 0 -> sign bit
                if op == Op::Slt && cb == Some(0) {
                    return self.extract(a, w - 1, w - 1);
                }
                if op == Op::Sle && ca == Some(0) {
                    let s = self.extract(b, w - 1, w - 1);
                    return self.not(s);
                }
                if op == Op::Slt && ca == Some(m) {
                    // -1 < b  == b >= 0
                    let s = self.extract(b, w - 1, w - 1);
                    return self.not(s);
                }
                if op == Op::Sle && cb == Some(m) {
                    return self.extract(a, w - 1, w - 1);
                }
                // sext vs const
                if na.op == Op::SExt {
                    if let Some(y) = cb {
                        let iw = self.w(na.a);
                        let t = y & mask(iw);
                        if (sext(t, iw) as u128) & m == y {
                            let k = self.cst(iw, t);
                            return self.bin(op, na.a, k);
                        }
                        // outside range
                        let pos = sext(y, w) >= 0;
                        return if pos { self.tru } else { self.fls };
                    }
                }
                if nb.op == Op::SExt {
                    if let Some(x) = ca {
                        let iw = self.w(nb.a);
                        let t = x & mask(iw);
                        if (sext(t, iw) as u128) & m == x {
                            let k = self.cst(iw, t);
                            return self.bin(op, k, nb.a);
                        }
                        let pos = sext(x, w) >= 0;
                        return if pos { self.fls } else { self.tru };
                    }
                }
            }
            _ => {}
        }
        self.mk(op, rw, a, b, 0)
    }
    /// A bound on the absolute value of `r` read as a signed number.
    pub fn smag(&self, r: Ref, depth: u32) -> u128 {
        let n = self.n(r);
        let w = self.w(r);
        let all = 1u128 << (w - 1);
        if let Some(k) = self.as_const(r) {
            return sext(k, w).unsigned_abs();
        }
        if depth == 0 {
            return all;
        }
        let kb = || self.as_const(n.b).map(|k| sext(k, w).unsigned_abs()).filter(|k| *k > 0);
        match n.op {
            Op::SDiv => kb().map_or(all, |k| self.smag(n.a, depth - 1) / k),
            Op::SRem => kb().map_or(all, |k| (k - 1).min(self.smag(n.a, depth - 1))),
            Op::Mul => kb().and_then(|k| self.smag(n.a, depth - 1).checked_mul(k)).filter(|m| *m < all).unwrap_or(all),
            _ => all,
        }
    }
    /// Whether `a + b` is the start of x = (x / c) * c + x % c with x % c itself so split (truncating division): that `x`,
    /// and whether the sum is all of it. The exact sum lies between 0 and `x`.
    pub fn div_sum(&mut self, a: Ref, b: Ref) -> Option<(Ref, bool)> {
        let quick = |s: &Self, r: Ref| matches!(s.n(r).op, Op::Mul | Op::Add | Op::SRem);
        if !quick(self, a) || !quick(self, b) {
            return None;
        }
        let mut l = vec![];
        let mut todo = vec![a, b];
        while let Some(r) = todo.pop() {
            let n = self.n(r);
            if n.op == Op::Add {
                todo.push(n.a);
                todo.push(n.b);
            } else {
                l.push(r);
            }
            if l.len() + todo.len() > 4 {
                return None;
            }
        }
        self.div_chain(&l)
    }
    fn div_chain(&mut self, l: &[Ref]) -> Option<(Ref, bool)> {
        for i in 0..l.len() {
            let n = self.n(l[i]);
            if n.op != Op::Mul {
                continue;
            }
            let q = self.n(n.a);
            let w = self.w(l[i]);
            let Some(k) = self.as_const(n.b) else { continue };
            if q.op != Op::SDiv || q.b != n.b || sext(k, w) <= 0 {
                continue;
            }
            let rest: Vec<Ref> = l.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, r)| *r).collect();
            if rest.is_empty() {
                return Some((q.a, false));
            }
            let rem = self.bin(Op::SRem, q.a, n.b);
            if rest == [rem] {
                return Some((q.a, true));
            }
            if let Some((y, done)) = self.div_chain(&rest) {
                if y == rem {
                    return Some((q.a, done));
                }
            }
        }
        None
    }
    fn cmp_ext(&mut self, op: Op, a: Ref, b: Ref, ca: Option<u128>, cb: Option<u128>) -> Option<Ref> {
        let na = self.n(a);
        let nb = self.n(b);
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return Some(self.bin(op, na.a, nb.a));
        }
        // range checks above guarantee the constant fits when we get here
        if na.op == Op::ZExt {
            if let Some(y) = cb {
                let iw = self.w(na.a);
                if y <= mask(iw) {
                    let k = self.cst(iw, y);
                    return Some(self.bin(op, na.a, k));
                }
            }
        }
        if nb.op == Op::ZExt {
            if let Some(x) = ca {
                let iw = self.w(nb.a);
                if x <= mask(iw) {
                    let k = self.cst(iw, x);
                    return Some(self.bin(op, k, nb.a));
                }
            }
        }
        None
    }
    /// condition of the form x[h:l] == 0
    fn zero_range(&self, r: Ref) -> Option<(Ref, u16, u16)> {
        let n = self.n(r);
        match n.op {
            Op::Eq if self.as_const(n.b) == Some(0) => {
                let x = self.n(n.a);
                if x.op == Op::Extract {
                    Some((x.a, x.b as u16 + x.w - 1, x.b as u16))
                } else {
                    Some((n.a, x.w - 1, 0))
                }
            }
            Op::Not => {
                let x = self.n(n.a);
                if x.op == Op::Extract && x.w == 1 {
                    Some((x.a, x.b as u16, x.b as u16))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    /// merges x[h1:l1] == 0 and x[h2:l2] == 0 (neg: the negations, joined by or)
    fn merge_zero(&mut self, a: Ref, b: Ref, neg: bool) -> Option<Ref> {
        let (p, q) = if neg { (self.negated(a)?, self.negated(b)?) } else { (a, b) };
        let (x, h1, l1) = self.zero_range(p)?;
        let (y, h2, l2) = self.zero_range(q)?;
        if x != y || h1 + 1 < l2 || h2 + 1 < l1 {
            return None;
        }
        let (h, l) = (h1.max(h2), l1.min(l2));
        let r = if (h, l) == (h1, l1) {
            p
        } else if (h, l) == (h2, l2) {
            q
        } else {
            let e = self.extract(x, h, l);
            let z = self.cst(h - l + 1, 0);
            self.bin(Op::Eq, e, z)
        };
        Some(if neg { self.not(r) } else { r })
    }
    /// the operand of a negation, or the negation of a bit
    fn negated(&mut self, a: Ref) -> Option<Ref> {
        let n = self.n(a);
        match n.op {
            Op::Not => Some(n.a),
            Op::Extract => Some(self.not(a)),
            _ => None,
        }
    }
    fn and_zero(&mut self, a: Ref, b: Ref, neg: bool) -> Option<Ref> {
        if let Some(r) = self.merge_zero(a, b, neg) {
            return Some(r);
        }
        let op = if neg { Op::Or } else { Op::And };
        for (a, b) in [(a, b), (b, a)] {
            let nb = self.n(b);
            if nb.op == op {
                if let Some(r) = self.merge_zero(a, nb.a, neg) {
                    return Some(if r == nb.a { b } else { self.bin(op, r, nb.b) });
                }
                if let Some(r) = self.merge_zero(a, nb.b, neg) {
                    return Some(if r == nb.b { b } else { self.bin(op, nb.a, r) });
                }
            }
        }
        None
    }
    /// the conditions c1, c2, .. and constant k with r = c1 + c2 + .. + k
    fn ind_terms(&mut self, r: Ref, out: &mut Vec<Ref>, k: &mut u128, depth: u32) -> bool {
        if out.len() > 48 || depth == 0 {
            return false;
        }
        let n = self.n(r);
        match n.op {
            Op::Const => {
                *k += self.consts[n.a as usize];
                true
            }
            Op::ZExt if self.w(n.a) == 1 => {
                out.push(n.a);
                true
            }
            Op::Add => self.ind_terms(n.a, out, k, depth - 1) && self.ind_terms(n.b, out, k, depth - 1),
            Op::Ite => match (self.as_const(n.b), self.as_const(n.c)) {
                (Some(x), Some(y)) if x == y + 1 => {
                    *k += y;
                    out.push(n.a);
                    true
                }
                (Some(x), Some(y)) if y == x + 1 => {
                    *k += x;
                    let c = self.not(n.a);
                    out.push(c);
                    true
                }
                _ => false,
            },
            _ => false,
        }
    }
    /// the union of two conditions that exclude each other, when that is plain from their form
    fn disjoint_or(&mut self, p: Ref, q: Ref) -> Option<Ref> {
        // each condition is (x[h:l] == 0) and not (x[h':l'] == 0)
        fn split(cx: &mut Ctx, p: Ref) -> Option<(Ref, Ref)> {
            let n = cx.n(p);
            if n.op == Op::And {
                for (a, b) in [(n.a, n.b), (n.b, n.a)] {
                    if cx.zero_range(a).is_some() {
                        if let Some(nb) = cx.negated(b) {
                            if cx.zero_range(nb).is_some() {
                                return Some((a, nb));
                            }
                        }
                    }
                }
                return None;
            }
            if cx.zero_range(p).is_some() && n.op != Op::Not {
                return Some((p, cx.fls));
            }
            let q = cx.negated(p)?;
            cx.zero_range(q)?;
            Some((cx.tru, q))
        }
        let (a1, n1) = split(self, p)?;
        let (a2, n2) = split(self, q)?;
        for (a1, n1, a2, n2) in [(a1, n1, a2, n2), (a2, n2, a1, n1)] {
            // p = a1 & !n1, q = a2 & !n2 with n1 = a2: p and q exclude each other, and with
            // n2 => a2 => a1 the union is a1 & !n2
            if n1 == a2 && n1 != self.fls {
                let x = self.bin(Op::And, a2, a1);
                let y = self.bin(Op::And, n2, a2);
                if x == a2 && y == n2 {
                    let nn = self.not(n2);
                    return Some(self.bin(Op::And, a1, nn));
                }
            }
        }
        None
    }
    /// a sum of truth values with those that exclude each other merged
    fn ind_sum(&mut self, w: u16, a: Ref, b: Ref) -> Option<Ref> {
        let mut k = 0;
        let mut ta = vec![];
        if !self.ind_terms(a, &mut ta, &mut k, 24) {
            return None;
        }
        let mut tb = vec![];
        if !self.ind_terms(b, &mut tb, &mut k, 24) || ta.len() + tb.len() > 48 {
            return None;
        }
        let mut changed = false;
        for q in tb {
            let mut q = q;
            let mut i = 0;
            while i < ta.len() {
                if let Some(m) = self.disjoint_or(ta[i], q) {
                    ta.swap_remove(i);
                    q = m;
                    changed = true;
                    i = 0;
                } else {
                    i += 1;
                }
            }
            ta.push(q);
        }
        if !changed {
            return None;
        }
        ta.sort_unstable();
        let mut acc: Option<Ref> = None;
        for t in ta {
            if let Some(c) = self.as_const(t) {
                k += c;
                continue;
            }
            let z = self.zext(t, w);
            acc = Some(match acc {
                None => z,
                Some(x) => {
                    let (x, z) = if x < z { (x, z) } else { (z, x) };
                    self.mk(Op::Add, w, x, z, 0)
                }
            });
        }
        let kc = self.cst(w, k);
        Some(match acc {
            None => kc,
            Some(x) if k == 0 => x,
            Some(x) => self.mk(Op::Add, w, x, kc, 0),
        })
    }
    fn map_ite(&mut self, op: Op, na: Node, b: Ref) -> Ref {
        let t = self.bin(op, na.b, b);
        let e = self.bin(op, na.c, b);
        self.ite(na.a, t, e)
    }
    /// a = concat(x, 0:k) (possibly zero-extended), b with umax < 2^k
    fn or_concat(&mut self, a: Ref, b: Ref) -> Option<Ref> {
        let na = self.n(a);
        let w = na.w;
        let (cat, outer) = if na.op == Op::Concat {
            (na, w)
        } else if na.op == Op::ZExt && self.n(na.a).op == Op::Concat {
            (self.n(na.a), w)
        } else {
            return None;
        };
        if self.as_const(cat.b) != Some(0) {
            return None;
        }
        let k = self.w(cat.b);
        let nb = self.n(b);
        let fits = match nb.op {
            Op::ZExt => self.w(nb.a) <= k,
            Op::Const => self.consts[nb.a as usize] <= mask(k),
            _ => false,
        };
        if !fits {
            return None;
        }
        let lo = self.extract(b, k - 1, 0);
        let c = self.concat(cat.a, lo);
        Some(self.zext(c, outer))
    }
    pub fn ite(&mut self, c: Ref, t: Ref, e: Ref) -> Ref {
        if let Some(v) = self.as_const(c) {
            return if v == 1 { t } else { e };
        }
        if t == e {
            return t;
        }
        let w = self.w(t);
        debug_assert_eq!(w, self.w(e));
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, e, t);
        }
        if w == 1 {
            match (self.as_const(t), self.as_const(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, e),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, e);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, t);
                }
                _ => {}
            }
        }
        let nt = self.n(t);
        let ne = self.n(e);
        if nt.op == Op::Ite && nt.a == c {
            return self.ite(c, nt.b, e);
        }
        if ne.op == Op::Ite && ne.a == c {
            return self.ite(c, t, ne.c);
        }
        // a counter: ite(c, e + 1, e) -> e + c
        if w >= 32 && self.rng_hi[e as usize] < 64 && self.rng_hi[t as usize] == self.rng_hi[e as usize] + 1 {
            let one = self.cst(w, 1);
            if self.bin(Op::Add, e, one) == t {
                let z = self.zext(c, w);
                return if self.as_const(e) == Some(0) { z } else { self.bin(Op::Add, e, z) };
            }
        }
        // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if ne.op == Op::Ite && ne.b == t {
            let d = self.bin(Op::Or, c, ne.a);
            return self.ite(d, t, ne.c);
        }
        self.mk(Op::Ite, w, c, t, e)
    }
    pub fn extract(&mut self, a: Ref, hi: u16, lo: u16) -> Ref {
        let na = self.n(a);
        debug_assert!(hi < na.w && lo <= hi);
        if hi - lo + 1 == na.w {
            return a;
        }
        if matches!(na.op, Op::Const | Op::Extract) {
            return self.extract1(a, hi, lo);
        }
        if let Some(r) = self.ext_memo.get(&(a, hi, lo)) {
            return *r;
        }
        let r = self.extract1(a, hi, lo);
        self.ext_memo.insert((a, hi, lo), r);
        r
    }
    fn extract1(&mut self, a: Ref, hi: u16, lo: u16) -> Ref {
        let na = self.n(a);
        let w = hi - lo + 1;
        match na.op {
            Op::Const => {
                let v = self.consts[na.a as usize] >> lo;
                self.cst(w, v)
            }
            Op::Extract => self.extract(na.a, hi + na.b as u16, lo + na.b as u16),
            Op::Concat => {
                let lw = self.w(na.b);
                if hi < lw {
                    self.extract(na.b, hi, lo)
                } else if lo >= lw {
                    self.extract(na.a, hi - lw, lo - lw)
                } else {
                    let h = self.extract(na.a, hi - lw, 0);
                    let l = self.extract(na.b, lw - 1, lo);
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let iw = self.w(na.a);
                if hi < iw {
                    self.extract(na.a, hi, lo)
                } else if lo >= iw {
                    self.cst(w, 0)
                } else {
                    let x = self.extract(na.a, iw - 1, lo);
                    self.zext(x, w)
                }
            }
            Op::SExt => {
                let iw = self.w(na.a);
                if hi < iw {
                    self.extract(na.a, hi, lo)
                } else if lo < iw {
                    let x = self.extract(na.a, iw - 1, lo);
                    self.sext(x, w)
                } else {
                    let x = self.extract(na.a, iw - 1, iw - 1);
                    self.sext(x, w)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(na.a, hi, lo);
                let y = self.extract(na.b, hi, lo);
                self.bin(na.op, x, y)
            }
            Op::Not => {
                let x = self.extract(na.a, hi, lo);
                self.not(x)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(na.a, hi, 0);
                let y = self.extract(na.b, hi, 0);
                self.bin(na.op, x, y)
            }
            Op::Ite => {
                // push through when at least one arm is constant, or when narrow
                if self.as_const(na.b).is_some() || self.as_const(na.c).is_some() || w <= 8 {
                    let x = self.extract(na.b, hi, lo);
                    let y = self.extract(na.c, hi, lo);
                    self.ite(na.a, x, y)
                } else {
                    self.mk(Op::Extract, w, a, lo as u32, 0)
                }
            }
            _ => self.mk(Op::Extract, w, a, lo as u32, 0),
        }
    }
    pub fn concat(&mut self, hi: Ref, lo: Ref) -> Ref {
        let nh = self.n(hi);
        let nl = self.n(lo);
        let w = nh.w + nl.w;
        assert!(w <= 128, "concat too wide");
        if let (Some(h), Some(l)) = (self.as_const(hi), self.as_const(lo)) {
            return self.cst(w, (h << nl.w) | l);
        }
        if self.as_const(hi) == Some(0) {
            return self.zext(lo, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + nl.w as u32 {
            let top = nh.b as u16 + nh.w - 1;
            return self.extract(nh.a, top, nl.b as u16);
        }
        // concat(extract(x), concat(extract(x) , y))
        if nl.op == Op::Concat {
            let m = self.n(nl.a);
            if nh.op == Op::Extract && m.op == Op::Extract && nh.a == m.a && nh.b == m.b + m.w as u32 {
                let top = nh.b as u16 + nh.w - 1;
                let x = self.extract(nh.a, top, m.b as u16);
                return self.concat(x, nl.b);
            }
        }
        // right-assoc normalisation: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if nh.op == Op::Concat {
            let l = self.concat(nh.b, lo);
            return self.concat(nh.a, l);
        }
        if nh.op == Op::ZExt {
            let l = self.concat(nh.a, lo);
            return self.zext(l, w);
        }
        // same-condition ITEs
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let t = self.concat(nh.b, nl.b);
            let e = self.concat(nh.c, nl.c);
            return self.ite(nh.a, t, e);
        }
        self.mk(Op::Concat, w, hi, lo, 0)
    }
    pub fn zext(&mut self, a: Ref, w: u16) -> Ref {
        let na = self.n(a);
        debug_assert!(w >= na.w);
        if w == na.w {
            return a;
        }
        match na.op {
            Op::Const => {
                let v = self.consts[na.a as usize];
                self.cst(w, v)
            }
            Op::ZExt => self.zext(na.a, w),
            Op::Ite if self.as_const(na.b).is_some() && self.as_const(na.c).is_some() => {
                let t = self.zext(na.b, w);
                let e = self.zext(na.c, w);
                self.ite(na.a, t, e)
            }
            _ => self.mk(Op::ZExt, w, a, 0, 0),
        }
    }
    pub fn sext(&mut self, a: Ref, w: u16) -> Ref {
        let na = self.n(a);
        debug_assert!(w >= na.w);
        if w == na.w {
            return a;
        }
        match na.op {
            Op::Const => {
                let v = sext(self.consts[na.a as usize], na.w) as u128;
                self.cst(w, v)
            }
            Op::SExt => self.sext(na.a, w),
            Op::ZExt => self.zext(na.a, w),
            Op::Ite if self.as_const(na.b).is_some() && self.as_const(na.c).is_some() => {
                let t = self.sext(na.b, w);
                let e = self.sext(na.c, w);
                self.ite(na.a, t, e)
            }
            _ => self.mk(Op::SExt, w, a, 0, 0),
        }
    }
    pub fn fp(&mut self, op: Op, w: u16, a: Ref, b: Ref, c: Ref) -> Ref {
        // b and c may be 0 (absent); for FLog b carries a tag constant
        let ca = self.as_const(a);
        let cb = if b == 0 { Some(0) } else { self.as_const(b) };
        let cc = if c == 0 { Some(0) } else { self.as_const(c) };
        if let (Some(x), Some(y), Some(z)) = (ca, cb, cc) {
            let v = fp_eval(op, w, self.w(a), x, y, z);
            return self.cst(w, v);
        }
        if matches!(op, Op::FAdd | Op::FMul) && cb.is_none() {
            // commuting is exact unless both are NaN
            if let Some(x) = ca {
                if x & mask(w - 1) <= fp_inf(w) {
                    return self.mk(op, w, b, a, c);
                }
            }
        }
        if op == Op::FCvt {
            // narrowing a widened value is exact (f32 -> f64 -> f32), up to NaN quieting
            if self.w(a) == w {
                return a;
            }
        }
        self.mk(op, w, a, b, c)
    }
    // ---- floating comparisons, exact, over bit patterns
    pub fn f_isnan(&mut self, a: Ref) -> Ref {
        let w = self.w(a);
        let x = self.extract(a, w - 2, 0);
        let inf = self.cst(w - 1, fp_inf(w));
        self.bin(Op::Ult, inf, x)
    }
    /// IEEE a < b, assuming neither is NaN
    fn f_lt_nn(&mut self, a: Ref, b: Ref) -> Ref {
        let w = self.w(a);
        let sa = self.extract(a, w - 1, w - 1);
        let sb = self.extract(b, w - 1, w - 1);
        let ma = self.extract(a, w - 2, 0);
        let mb = self.extract(b, w - 2, 0);
        let lt = self.bin(Op::Ult, ma, mb);
        let gt = self.bin(Op::Ult, mb, ma);
        let z = self.cst(w - 1, 0);
        let za = self.bin(Op::Eq, ma, z);
        let zb = self.bin(Op::Eq, mb, z);
        let bothz = self.bin(Op::And, za, zb);
        let nbz = self.not(bothz);
        // sa=1,sb=0 -> !bothzero ; sa=0,sb=1 -> false ; both 0 -> lt ; both 1 -> gt
        let x1 = self.ite(sb, gt, nbz);
        let f = self.fls;
        let x0 = self.ite(sb, f, lt);
        self.ite(sa, x1, x0)
    }
    fn f_eq_nn(&mut self, a: Ref, b: Ref) -> Ref {
        let w = self.w(a);
        let e = self.bin(Op::Eq, a, b);
        let ma = self.extract(a, w - 2, 0);
        let mb = self.extract(b, w - 2, 0);
        let z = self.cst(w - 1, 0);
        let za = self.bin(Op::Eq, ma, z);
        let zb = self.bin(Op::Eq, mb, z);
        let bz = self.bin(Op::And, za, zb);
        self.bin(Op::Or, e, bz)
    }
    pub fn fcmp(&mut self, pred: &str, a: Ref, b: Ref) -> Ref {
        if pred == "true" {
            return self.tru;
        }
        if pred == "false" {
            return self.fls;
        }
        let na = self.f_isnan(a);
        let nb = self.f_isnan(b);
        let uno = self.bin(Op::Or, na, nb);
        if pred == "uno" {
            return uno;
        }
        let ord = self.not(uno);
        if pred == "ord" {
            return ord;
        }
        let (unordered, p) = (pred.as_bytes()[0] == b'u', &pred[1..]);
        let base = match p {
            "eq" => self.f_eq_nn(a, b),
            "ne" => {
                let e = self.f_eq_nn(a, b);
                self.not(e)
            }
            "lt" => self.f_lt_nn(a, b),
            "gt" => self.f_lt_nn(b, a),
            "le" => {
                let x = self.f_lt_nn(b, a);
                self.not(x)
            }
            "ge" => {
                let x = self.f_lt_nn(a, b);
                self.not(x)
            }
            _ => panic!("fcmp {pred}"),
        };
        if unordered {
            self.bin(Op::Or, uno, base)
        } else {
            self.bin(Op::And, ord, base)
        }
    }

    /// `root` with every occurrence of `from` replaced by `to`
    pub fn subst(&mut self, root: Ref, from: Ref, to: Ref) -> Ref {
        let mut memo: std::collections::HashMap<Ref, Ref> = Default::default();
        memo.insert(from, to);
        let mut budget = 4000;
        self.subst1(root, from, &mut memo, &mut budget)
    }
    fn subst1(&mut self, r: Ref, from: Ref, memo: &mut std::collections::HashMap<Ref, Ref>, budget: &mut i32) -> Ref {
        if let Some(x) = memo.get(&r) {
            return *x;
        }
        // nodes are numbered in construction order: a smaller one cannot contain `from`
        if r < from || *budget <= 0 {
            return r;
        }
        *budget -= 1;
        let n = self.n(r);
        let out = match n.op {
            Op::Const | Op::Var => r,
            Op::Extract => {
                let a = self.subst1(n.a, from, memo, budget);
                if a == n.a {
                    r
                } else {
                    let lo = n.b as u16;
                    self.extract(a, lo + n.w - 1, lo)
                }
            }
            _ => {
                let a = self.subst1(n.a, from, memo, budget);
                let b = if n.b != 0 { self.subst1(n.b, from, memo, budget) } else { 0 };
                let c = if n.c != 0 { self.subst1(n.c, from, memo, budget) } else { 0 };
                if a == n.a && b == n.b && c == n.c {
                    r
                } else {
                    match n.op {
                        Op::Not => self.not(a),
                        Op::Ite => self.ite(a, b, c),
                        Op::Concat => self.concat(a, b),
                        Op::ZExt => self.zext(a, n.w),
                        Op::SExt => self.sext(a, n.w),
                        op if is_fp(op) => r,
                        op => self.bin(op, a, b),
                    }
                }
            }
        };
        memo.insert(r, out);
        out
    }
    // ---- evaluation
    pub fn eval_begin(&mut self) {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            for g in self.eval_gen.iter_mut() {
                *g = 0;
            }
            self.gen = 1;
        }
    }
    pub fn eval(&mut self, r: Ref, m: &Model) -> u128 {
        self.eval_begin();
        self.eval_in(r, m)
    }
    pub fn eval_in(&mut self, root: Ref, m: &Model) -> u128 {
        let gen = self.gen;
        if self.eval_gen[root as usize] == gen {
            return self.eval_val[root as usize];
        }
        let mut stack: Vec<Ref> = vec![root];
        while let Some(&r) = stack.last() {
            let i = r as usize;
            if self.eval_gen[i] == gen {
                stack.pop();
                continue;
            }
            let n = self.nodes[i];
            let v = match n.op {
                Op::Const => self.consts[n.a as usize],
                Op::Var => m.get(&n.a).copied().unwrap_or(0) & mask(n.w),
                _ => {
                    // children
                    let mut pend = false;
                    let kids: [u32; 3] = match n.op {
                        Op::Extract => [n.a, 0, 0],
                        _ => [n.a, n.b, n.c],
                    };
                    if n.op == Op::Ite {
                        // lazy
                        if self.eval_gen[n.a as usize] != gen {
                            stack.push(n.a);
                            continue;
                        }
                        let k = if self.eval_val[n.a as usize] == 1 { n.b } else { n.c };
                        if self.eval_gen[k as usize] != gen {
                            stack.push(k);
                            continue;
                        }
                        let v = self.eval_val[k as usize];
                        self.eval_gen[i] = gen;
                        self.eval_val[i] = v;
                        stack.pop();
                        continue;
                    }
                    for k in kids {
                        if k != 0 && self.eval_gen[k as usize] != gen {
                            stack.push(k);
                            pend = true;
                        }
                    }
                    if pend {
                        continue;
                    }
                    let g = |k: u32| if k == 0 { 0 } else { self.eval_val[k as usize] };
                    let (a, b, c) = (
                        g(n.a),
                        if n.op == Op::Extract { 0 } else { g(n.b) },
                        if n.op == Op::Extract { 0 } else { g(n.c) },
                    );
                    let aw = self.nodes[n.a as usize].w;
                    match n.op {
                        Op::Not => !a & mask(n.w),
                        Op::Concat => (a << self.nodes[n.b as usize].w) | b,
                        Op::Extract => (a >> n.b) & mask(n.w),
                        Op::ZExt => a,
                        Op::SExt => (sext(a, aw) as u128) & mask(n.w),
                        op if is_fp(op) => fp_eval(op, n.w, aw, a, b, c),
                        op => bin_eval(op, aw, a, b),
                    }
                }
            };
            self.eval_gen[i] = gen;
            self.eval_val[i] = v;
            stack.pop();
        }
        self.eval_val[root as usize]
    }

    // ---- support
    pub fn support(&mut self, root: Ref) -> std::rc::Rc<Vec<u32>> {
        if let Some(s) = &self.support[root as usize] {
            return s.clone();
        }
        let mut stack = vec![root];
        while let Some(&r) = stack.last() {
            if self.support[r as usize].is_some() {
                stack.pop();
                continue;
            }
            let n = self.n(r);
            match n.op {
                Op::Const => self.support[r as usize] = Some(Default::default()),
                Op::Var => self.support[r as usize] = Some(std::rc::Rc::new(vec![n.a])),
                _ => {
                    let kids: [u32; 3] = match n.op {
                        Op::Extract => [n.a, 0, 0],
                        _ => [n.a, n.b, n.c],
                    };
                    let mut pend = false;
                    for k in kids {
                        if k != 0 && self.support[k as usize].is_none() {
                            stack.push(k);
                            pend = true;
                        }
                    }
                    if pend {
                        continue;
                    }
                    let mut acc: Option<std::rc::Rc<Vec<u32>>> = None;
                    for k in kids {
                        if k == 0 {
                            continue;
                        }
                        let s = self.support[k as usize].clone().unwrap();
                        acc = Some(match acc {
                            None => s,
                            Some(x) => {
                                if s.is_empty() || std::rc::Rc::ptr_eq(&x, &s) {
                                    x
                                } else if x.is_empty() {
                                    s
                                } else {
                                    let mut v: Vec<u32> = Vec::with_capacity(x.len() + s.len());
                                    let (mut i, mut j) = (0, 0);
                                    while i < x.len() || j < s.len() {
                                        if j >= s.len() || (i < x.len() && x[i] < s[j]) {
                                            v.push(x[i]);
                                            i += 1;
                                        } else if i >= x.len() || s[j] < x[i] {
                                            v.push(s[j]);
                                            j += 1;
                                        } else {
                                            v.push(x[i]);
                                            i += 1;
                                            j += 1;
                                        }
                                    }
                                    if v.len() == x.len() {
                                        x
                                    } else {
                                        std::rc::Rc::new(v)
                                    }
                                }
                            }
                        });
                    }
                    self.support[r as usize] = Some(acc.unwrap());
                }
            }
            stack.pop();
        }
        self.support[root as usize].clone().unwrap()
    }
}

pub fn fp_inf(w: u16) -> u128 {
    match w {
        64 => 0x7ff0_0000_0000_0000,
        32 => 0x7f80_0000,
        16 => 0x7c00,
        _ => panic!("fp width"),
    }
}
