//! Checks the expression simplifier against plain evaluation and against z3 on random expressions.
use crate::expr::*;
use crate::z3::{Res, Solver};

struct Rng(u64);
impl Rng {
    fn n(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, k: u64) -> u64 {
        self.n() % k
    }
    fn val(&mut self, w: u16) -> u128 {
        let r = match self.below(5) {
            0 => 0,
            1 => u128::MAX,
            2 => self.below(4) as u128,
            3 => 1u128 << self.below(w as u64),
            _ => self.n() as u128 | (self.n() as u128) << 64,
        };
        r & mask(w)
    }
}

/// A reference tree evaluated without any simplification.
fn gen(cx: &mut Ctx, r: &mut Rng, m: &Model, w: u16, depth: u32) -> (Ref, u128) {
    let c = if depth == 0 { r.below(2) } else { r.below(24) };
    match c {
        0 => {
            let v = r.val(w);
            (cx.cst(w, v), v)
        }
        1 => {
            let id = (r.below(3) as u32) * 256 + w as u32;
            let v = m.get(&id).copied().unwrap_or(0) & mask(w);
            (cx.var(id, w), v)
        }
        2 => {
            let (a, x) = gen(cx, r, m, w, depth - 1);
            (cx.not(a), !x & mask(w))
        }
        3..=13 => {
            let op = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::SDiv, Op::SRem]
                [r.below(13) as usize];
            let (a, x) = gen(cx, r, m, w, depth - 1);
            let (b, y) = if matches!(op, Op::Shl | Op::LShr | Op::AShr) && r.below(2) == 0 {
                let k = r.below(w as u64 + 2) as u128 & mask(w);
                (cx.cst(w, k), k)
            } else {
                gen(cx, r, m, w, depth - 1)
            };
            (cx.bin(op, a, b), bin_eval(op, w, x, y))
        }
        14 | 15 => {
            let (c0, cv) = gen(cx, r, m, 1, depth - 1);
            let (a, x) = gen(cx, r, m, w, depth - 1);
            let (b, y) = gen(cx, r, m, w, depth - 1);
            (cx.ite(c0, a, b), if cv == 1 { x } else { y })
        }
        16 | 17 if w > 1 => {
            let lw = 1 + r.below(w as u64 - 1) as u16;
            let (a, x) = gen(cx, r, m, w - lw, depth - 1);
            let (b, y) = gen(cx, r, m, lw, depth - 1);
            (cx.concat(a, b), (x << lw) | y)
        }
        18 | 19 if w < 100 => {
            let extra = r.below(20) as u16;
            let lo = if extra == 0 { 0 } else { r.below(extra as u64 + 1) as u16 };
            let (a, x) = gen(cx, r, m, w + extra, depth - 1);
            (cx.extract(a, lo + w - 1, lo), (x >> lo) & mask(w))
        }
        20 if w > 1 => {
            let iw = 1 + r.below(w as u64) as u16;
            let (a, x) = gen(cx, r, m, iw, depth - 1);
            (cx.zext(a, w), x)
        }
        21 if w > 1 => {
            let iw = 1 + r.below(w as u64) as u16;
            let (a, x) = gen(cx, r, m, iw, depth - 1);
            (cx.sext(a, w), (sext(x, iw) as u128) & mask(w))
        }
        _ if w == 1 => {
            let op = [Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle][r.below(5) as usize];
            let iw = [1u16, 2, 7, 8, 16, 32, 64, 128][r.below(8) as usize];
            let (a, x) = gen(cx, r, m, iw, depth - 1);
            let (b, y) = gen(cx, r, m, iw, depth - 1);
            (cx.bin(op, a, b), bin_eval(op, iw, x, y))
        }
        _ => {
            let (a, x) = gen(cx, r, m, w, depth - 1);
            (a, x)
        }
    }
}

pub fn run(n: u64, seed: u64) {
    let mut cx = Ctx::new();
    let mut sv = Solver::new(50_000_000);
    let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    let mut solver_checks = 0;
    for i in 0..n {
        if cx.nodes.len() > 2_000_000 {
            cx = Ctx::new();
            sv = Solver::new(50_000_000);
        }
        let mut m = Model::default();
        for k in 0..3u32 {
            for w in 1..=128u32 {
                let v = r.val(w as u16);
                m.insert(k * 256 + w, v);
            }
        }
        let w = [1u16, 3, 8, 16, 32, 64, 128][r.below(7) as usize];
        let (e, v) = gen(&mut cx, &mut r, &m, w, 5);
        let got = cx.eval(e, &m);
        if got != v || cx.w(e) != w {
            eprintln!("selftest FAILED at {i}: width {w}, expected {v:#x}, got {got:#x}");
            std::process::exit(1);
        }
        if cx.umax_of(e, 8) < v || cx.umin_of(e, 8) > v {
            eprintln!("selftest FAILED at {i}: bounds {} {} value {v}", cx.umin_of(e, 8), cx.umax_of(e, 8));
            std::process::exit(1);
        }
        if i % 50 == 0 {
            // z3 must agree: vars pinned to the model imply e == v
            let mut cs = vec![];
            for id in cx.support(e).iter() {
                let vw = cx.var_w[id];
                let x = cx.var(*id, vw);
                let k = cx.cst(vw, m[id] & mask(vw));
                cs.push(cx.bin(Op::Eq, x, k));
            }
            let k = cx.cst(w, v);
            let q = cx.bin(Op::Eq, e, k);
            let nq = cx.not(q);
            cs.push(nq);
            if cx.as_const(nq) == Some(0) {
                continue;
            }
            cs.retain(|c| cx.as_const(*c).is_none());
            solver_checks += 1;
            if matches!(sv.check(&mut cx, &cs), Res::Sat(_)) {
                eprintln!("selftest FAILED at {i}: z3 disagrees with the evaluator");
                std::process::exit(1);
            }
        }
    }
    println!("selftest ok: {n} expressions, {solver_checks} solver cross-checks");
}
