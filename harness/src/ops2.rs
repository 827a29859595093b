//! Comparison, boolean logic, casts, fills, subtraction and statistics against the reference contents.
use vortex::array::{BoolArray, ConstantArray, PrimitiveArray};
use vortex::compute::unary::{fill_forward, subtract_scalar, try_cast};
use vortex::compute::{and, compare, filter, or, slice, take, Operator};
use vortex::stats::{ArrayStatistics, Stat, StatsSet};
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::DType;
use vortex_scalar::Scalar;

use crate::arr::*;
use crate::enc::*;
use crate::h::*;
use crate::{by_elt, by_ptype};

pub const OPS: [Operator; 6] = [Operator::Eq, Operator::NotEq, Operator::Gt, Operator::Gte, Operator::Lt, Operator::Lte];
pub fn holds<T: Elt>(op: Operator, x: T, y: T) -> bool {
    match op {
        Operator::Eq => x.same(y),
        Operator::NotEq => !x.same(y),
        Operator::Gt => y.less(x),
        Operator::Gte => y.leq(x),
        Operator::Lt => x.less(y),
        Operator::Lte => x.leq(y),
    }
}
/// NaNs and negative zeros are outside the order this property speaks about.
pub fn assume_ordinary<T: Elt>(m: &Ref<T>) {
    for v in &m.vals {
        assume(v.ordinary());
    }
}
fn check_bools(r: vortex_error::VortexResult<Array>, vals: Vec<bool>, valid: Vec<bool>) {
    match r {
        Ok(r) => check_all(&r, &Ref::new(vals, valid, true)),
        Err(_) => check(false, "the operation returned an error"),
    }
}

/// a = type + 16 * (encoding + 32 * other encoding), b = length, c = validity mode + 4 * other mode
#[no_mangle]
pub extern "C" fn h_cmp(a: u64, b: u64, c: u64) {
    let n = b as usize;
    let (e1, e2) = (a / 16 % 32, a / 512);
    by_elt!(a % 16, |T| {
        let (x, mx) = build::<T>(e1, n, c % 4);
        let (y, my) = build::<T>(e2, n, c / 4);
        assume_ordinary(&mx);
        assume_ordinary(&my);
        let op = OPS[choose(6)];
        let vals = (0..n).map(|i| holds(op, mx.vals[i], my.vals[i])).collect();
        let valid = (0..n).map(|i| mx.valid[i] & my.valid[i]).collect();
        check_bools(compare(&x, &y, op), vals, valid);
    })
}
/// Arrays of different lengths are not compared or combined.
#[no_mangle]
pub extern "C" fn h_cmp_len(a: u64, b: u64, c: u64) {
    let n = b as usize;
    let (e1, e2) = (a / 16 % 32, a / 512);
    by_elt!(a % 16, |T| {
        let (x, _) = build::<T>(e1, n, c % 4);
        let (y, _) = build::<T>(e2, n + 1, c / 4);
        check(compare(&x, &y, OPS[choose(6)]).is_err(), "arrays of different lengths were compared");
        if a % 16 == 10 {
            check(and(&x, &y).is_err(), "arrays of different lengths were combined");
            check(or(&x, &y).is_err(), "arrays of different lengths were combined");
        }
    })
}

/// a = 16 * (encoding + 32 * other encoding), b = length, c = validity mode + 4 * other mode + 16 * (1: or)
#[no_mangle]
pub extern "C" fn h_bool(a: u64, b: u64, c: u64) {
    let n = b as usize;
    let (e1, e2) = (a / 16 % 32, a / 512);
    let (x, mx) = build::<bool>(e1, n, c % 4);
    let (y, my) = build::<bool>(e2, n, c / 4 % 4);
    let is_or = c >= 16;
    let r = if is_or { or(&x, &y) } else { and(&x, &y) };
    let vals = (0..n).map(|i| if is_or { mx.vals[i] | my.vals[i] } else { mx.vals[i] & my.vals[i] }).collect();
    let valid = (0..n).map(|i| mx.valid[i] & my.valid[i]).collect();
    match r {
        Ok(r) => check_all(&r, &Ref::new(vals, valid, true)),
        Err(_) => check(false, "and/or returned an error"),
    }
}

/// Filling forward replaces each null by the last value before it (the default where there is none).
#[no_mangle]
pub extern "C" fn h_fill(a: u64, b: u64, c: u64) {
    let n = b as usize;
    let e = a / 16;
    by_elt!(a % 16, |T| {
        let (x, m) = build::<T>(e, n, c);
        let mut last = T::default();
        let mut vals = vec![];
        for i in 0..n {
            if m.valid[i] {
                last = m.vals[i];
            }
            vals.push(last);
        }
        match fill_forward(&x) {
            Ok(r) => check_all(&r, &Ref::new(vals, vec![true; n], m.nullable)),
            Err(_) => check(e > CANON_SLICED, "fill_forward of a plain array returned an error"),
        }
    })
}

/// Subtracting a scalar subtracts it from every valid row and leaves nulls null (no overflow assumed on valid rows).
#[no_mangle]
pub extern "C" fn h_sub(a: u64, b: u64, c: u64) {
    let n = b as usize;
    let e = a / 16;
    by_ptype!(a % 16, |T| {
        let (x, m) = build::<T>(e, n, c);
        let s = <T as Elt>::any();
        let mut vals = vec![];
        for i in 0..n {
            match m.vals[i].minus(s) {
                Some(v) => vals.push(v),
                None => {
                    assume(!m.valid[i]);
                    vals.push(m.vals[i])
                }
            }
        }
        match subtract_scalar(&x, &s.scalar(m.null())) {
            Ok(r) => check_all(&r, &Ref::new(vals, m.valid.clone(), m.nullable)),
            Err(_) => check(false, "subtract_scalar returned an error"),
        }
    })
}

/// Casting converts every valid row exactly or reports an error; a = type + 16 * encoding, b = length, c = mode + 4 * (target type + 16 * target nullability)
#[no_mangle]
pub extern "C" fn h_cast(a: u64, b: u64, c: u64) {
    let n = b as usize;
    let e = a / 16;
    let (mode, to, nul) = (c % 4, c / 4 % 16, c / 64);
    by_ptype!(a % 16, |T| {
        let (x, m) = build::<T>(e, n, mode);
        by_ptype!(to, |U| {
            let r = try_cast(&x, &<U as Elt>::dtype(nullability(nul == 1)));
            let mut ok = true;
            let mut vals = vec![];
            for i in 0..n {
                let v: Option<U> = m.vals[i].convert();
                ok &= !m.valid[i] | v.is_some();
                vals.push(v.unwrap_or_default());
                ok &= (nul == 1) | m.valid[i];
            }
            match r {
                Ok(r) => {
                    check(ok, "a cast succeeded that cannot represent every row");
                    if ok {
                        check_all(&r, &Ref::new(vals, m.valid.clone(), nul == 1))
                    }
                }
                Err(_) => check(!ok | (e > CANON_SLICED), "a cast that can represent every row returned an error"),
            }
        })
    })
}

/// Every statistic an array reports is true of its contents; c = mode + 4 * first statistic asked for
#[no_mangle]
pub extern "C" fn h_stats(a: u64, b: u64, c: u64) {
    let n = b as usize;
    let e = a / 16;
    by_elt!(a % 16, |T| {
        let (x, m) = build::<T>(e, n, c % 4);
        let exact = e % SLICED == CANON || e % SLICED == CANON_SLICED;
        if !exact {
            assume_ordinary(&m);
        }
        // one statistic asked for computes others along with it, in an order that must not matter
        let first = STATS[(c / 4) as usize % STATS.len()];
        let _ = x.statistics().compute(first);
        check_stats(&x, &m, exact);
    })
}
/// Statistics attached before the array is sliced, filtered or taken from do not outlive what they describe.
#[no_mangle]
pub extern "C" fn h_stats_after(a: u64, b: u64, c: u64) {
    let n = b as usize;
    let e = a / 16;
    by_elt!(a % 16, |T| {
        let (x, m) = build::<T>(e, n, c % 4);
        assume_ordinary(&m);
        for s in STATS {
            let _ = x.statistics().compute(s);
        }
        let (y, my) = match c / 4 {
            0 => {
                let lo = choose_row(0, n);
                let hi = choose_row(lo, n);
                (slice(&x, lo, hi), m.slice(lo, hi))
            }
            1 => {
                let keep: Vec<bool> = (0..n).map(|_| choose(2) == 1).collect();
                let idx: Vec<usize> = (0..n).filter(|i| keep[*i]).collect();
                (filter(&x, BoolArray::from(keep.clone()).into_array()), m.take(&idx))
            }
            _ => {
                let idx: Vec<usize> = (0..2).map(|_| choose(n)).collect();
                (take(&x, PrimitiveArray::from(idx.iter().map(|i| *i as u32).collect::<Vec<_>>()).into_array()), m.take(&idx))
            }
        };
        match y {
            Ok(y) => check_stats(&y, &my, false),
            Err(_) => check(false, "the operation returned an error"),
        }
    })
}
/// Statistics of two parts merge into statistics of the whole; a = type, b = length of each part, c = mode of the first + 4 * mode of the second
#[no_mangle]
pub extern "C" fn h_stats_merge(a: u64, b: u64, c: u64) {
    let (n, k) = ((b % 8) as usize, (b / 8) as usize);
    by_elt!(a, |T| {
        let (x, mx) = build::<T>(CANON, n, c % 4);
        let (y, my) = build::<T>(CANON, k, c / 4);
        assume_ordinary(&mx);
        assume_ordinary(&my);
        let mut sx = known(&x);
        let sy = known(&y);
        sx.merge(&sy);
        let m = Ref::concat(&[mx, my]);
        check_claims(&|s| sx.get(s).cloned(), &m, false);
    })
}
/// An array's statistics: all, all but one, or one, as another process might have stored them.
fn known(x: &Array) -> StatsSet {
    let k = choose(2 * STATS.len() + 1);
    let mut s = StatsSet::new();
    for (i, st) in STATS.iter().enumerate() {
        if k == 0 || (k <= STATS.len() && k != i + 1) || k == STATS.len() + i + 1 {
            if let Some(v) = x.statistics().compute(*st) {
                s.set(*st, v)
            }
        }
    }
    s
}
pub const STATS: [Stat; 8] = [Stat::Min, Stat::IsConstant, Stat::IsSorted, Stat::NullCount, Stat::TrueCount, Stat::RunCount, Stat::Max, Stat::IsStrictSorted];

pub fn check_stats<T: Elt>(x: &Array, m: &Ref<T>, exact: bool) {
    let st = x.statistics();
    check_claims(&|s| st.compute(s), m, exact)
}
/// `exact`: bounds are attained and negative claims are claims; otherwise statistics may be weaker, never wrong
pub fn check_claims<T: Elt>(get: &dyn Fn(Stat) -> Option<Scalar>, m: &Ref<T>, exact: bool) {
    let n = m.len();
    if n == 0 {
        return;
    }
    let any_null = (0..n).fold(false, |s, i| s | !m.valid[i]);
    let any_valid = (0..n).fold(false, |s, i| s | m.valid[i]);
    if let Some(s) = get(Stat::Min) {
        stat_bound(&s, m, any_valid, exact, |v, b| b.leq(v));
    }
    if let Some(s) = get(Stat::Max) {
        stat_bound(&s, m, any_valid, exact, |v, b| v.leq(b));
    }
    if let Some(s) = get(Stat::NullCount) {
        let k = (0..n).map(|i| !m.valid[i] as usize).sum::<usize>();
        check(usize::try_from(&s).ok() == Some(k), "the null count is wrong");
    }
    if T::CODE == 10 {
        if let Some(s) = get(Stat::TrueCount) {
            let k = (0..n).map(|i| (m.valid[i] & T::default().less(m.vals[i])) as usize).sum::<usize>();
            check(usize::try_from(&s).ok() == Some(k), "the true count is wrong");
        }
    }
    if let Some(s) = get(Stat::IsConstant) {
        let nan = (0..n).fold(false, |s, i| s | m.vals[i].not_number());
        let mut same = true;
        for i in 1..n {
            same &= (!m.valid[i] & !m.valid[0]) | (m.valid[i] & m.valid[0] & m.vals[i].same(m.vals[0]));
        }
        match bool::try_from(&s) {
            // an array of NaNs may be called not constant
            Ok(k) => check((!k | same) & (k | !same | nan | !exact), "is_constant is wrong"),
            Err(_) => check(false, "is_constant is not a bool"),
        }
    }
    let (mut sorted, mut strict, mut runs) = (true, true, 1usize);
    for j in 1..n {
        for i in 0..j {
            // consecutive valid rows
            let between = (i + 1..j).fold(false, |s, k| s | m.valid[k]);
            let both = m.valid[i] & m.valid[j] & !between;
            sorted &= !both | m.vals[i].leq(m.vals[j]);
            strict &= !both | m.vals[i].less(m.vals[j]);
            runs += (both & !m.vals[i].same(m.vals[j])) as usize;
        }
    }
    if let Some(s) = get(Stat::IsSorted) {
        match bool::try_from(&s) {
            Ok(k) => check((!k | sorted) & (k | !sorted | !exact), "is_sorted is wrong"),
            Err(_) => check(false, "is_sorted is not a bool"),
        }
    }
    if !any_null {
        if let Some(s) = get(Stat::IsStrictSorted) {
            match bool::try_from(&s) {
                Ok(k) => check((!k | strict) & (k | !strict | !exact), "is_strict_sorted is wrong"),
                Err(_) => check(false, "is_strict_sorted is not a bool"),
            }
        }
        if let Some(s) = get(Stat::RunCount) {
            match usize::try_from(&s) {
                Ok(k) => check((k == runs) | (!exact & (k >= runs)), "the run count is wrong"),
                Err(_) => check(false, "the run count is not a number"),
            }
        }
    }
}
fn stat_bound<T: Elt>(s: &Scalar, m: &Ref<T>, any_valid: bool, exact: bool, bounds: fn(T, T) -> bool) {
    if s.is_null() {
        return check(!any_valid, "a minimum or maximum is null although there are values");
    }
    let Some(v) = T::of_scalar(s) else { return check(false, "a minimum or maximum has another type") };
    let (mut all, mut hit) = (true, false);
    for i in 0..m.len() {
        all &= !m.valid[i] | bounds(m.vals[i], v);
        hit |= m.valid[i] & m.vals[i].same(v);
    }
    check(all, "a value lies beyond the reported minimum or maximum");
    check(hit | !exact, "the reported minimum or maximum is not a value of the array");
}

/// Histograms of bit widths and trailing zeros; a = unsigned or signed type, b = length, c = mode
#[no_mangle]
pub extern "C" fn h_freq(a: u64, b: u64, c: u64) {
    let n = b as usize;
    crate::by_int!(a, |T| {
        let (x, m) = sym_arr::<T>(n, c);
        let bits = T::BITS as usize;
        let mut w = vec![0u64; bits + 1];
        let mut z = vec![0u64; bits + 1];
        for i in 0..n {
            if m.valid[i] {
                w[concretize((T::BITS - m.vals[i].leading_zeros()) as u64) as usize] += 1;
                z[concretize(m.vals[i].trailing_zeros() as u64) as usize] += 1;
            } else {
                w[0] += 1;
                z[bits] += 1;
            }
        }
        let any_valid = m.valid.iter().any(|v| *v);
        if let Some(s) = x.statistics().compute(Stat::BitWidthFreq) {
            let v = Vec::<u64>::try_from(&s).unwrap();
            check(!any_valid || v == w, "the bit width histogram is wrong");
        }
        if let Some(s) = x.statistics().compute(Stat::TrailingZeroFreq) {
            let v = Vec::<u64>::try_from(&s).unwrap();
            check(!any_valid || v == z, "the trailing zero histogram is wrong");
        }
    })
}

#[allow(dead_code)]
fn unused(d: &DType) -> Array {
    ConstantArray::new(Scalar::null(d.clone()), 1).into_array().dtype().clone();
    ConstantArray::new(0u8, 1).into_array()
}
