//! Nulls: how they are held, combined and reported; arrays split into chunks.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use arrow_buffer::{BooleanBuffer, NullBuffer};
use vortex::array::{BoolArray, ChunkedArray, PrimitiveArray};
use vortex::compute::{filter, take};
use vortex::stats::{ArrayStatistics, Stat};
use vortex::validity::{LogicalValidity, Validity};
use vortex::{Array, ArrayDType, IntoArray, IntoCanonical};

use crate::arr::*;
use crate::by_elt;
use crate::enc::*;
use crate::h::*;

static VENC: AtomicU64 = AtomicU64::new(0);
/// The bitmap of an array with nulls: canonical, unless an entry point asks for another encoding of it.
pub fn bitmap(n: usize) -> (Array, Vec<bool>) {
    match VENC.load(Relaxed) * (n > 0) as u64 {
        0 => {
            let b = sym_bools(n);
            (BoolArray::from(b.clone()).into_array(), b)
        }
        e => {
            let (a, m) = build::<bool>(e, n, 0);
            (a, m.vals)
        }
    }
}

/// Another entry point over arrays whose nulls are held in a bitmap of encoding `v`: b = length + 4096 * (v + 32 * entry point)
#[no_mangle]
pub extern "C" fn h_under(a: u64, b: u64, c: u64) {
    use crate::*;
    VENC.store(b / 4096 % 32, Relaxed);
    let f = [
        ops::h_canon, ops::h_slice, ops::h_take, ops::h_take_many, ops::h_filter, ops::h_search, ops2::h_fill, ops2::h_stats, ops2::h_cmp, ops2::h_cast, ops2::h_sub, codec_int::h_for,
        codec_int::h_zigzag, codec_int::h_bitpack, codec_int::h_delta, codec2::h_alp, codec2::h_alprd, codec2::h_dict, codec2::h_runend, codec2::h_bools, codec2::h_dtparts, h_nulls, ops2::h_bool,
    ];
    f[(b / 4096 / 32) as usize](a, b % 4096, c);
    VENC.store(0, Relaxed);
}

fn make(n: usize, mode: u64) -> (Validity, Vec<bool>) {
    if mode == 3 {
        let (a, v) = bitmap(n);
        return (Validity::Array(a), v);
    }
    let (v, b, _) = sym_validity(n, mode);
    (v, b)
}
fn check_bits(v: &Validity, b: &[bool]) {
    for i in 0..b.len() {
        check(v.is_valid(i) == b[i], "is_valid differs from the bits");
        check(v.is_null(i) != b[i], "is_null differs from the bits");
    }
    check_logical(v.to_logical(b.len()), b);
}
fn check_logical(l: LogicalValidity, b: &[bool]) {
    check(l.len() == b.len(), "logical validity has the wrong length");
    check(l.is_empty() == b.is_empty(), "logical validity is wrong about being empty");
    let mut nulls = 0u64;
    for x in b {
        nulls += !*x as u64;
    }
    match l.null_count() {
        Ok(k) => check(k as u64 == nulls, "the null count of a logical validity is wrong"),
        Err(_) => check(false, "counting nulls returned an error"),
    }
    check(!l.all_valid() | (nulls == 0), "all valid, but some row is null");
    check(!l.all_invalid() | (nulls == b.len() as u64), "all null, but some row is valid");
    match l.to_null_buffer() {
        Ok(None) => check(nulls == 0, "no null buffer, but some row is null"),
        Ok(Some(nb)) => {
            check(nb.len() == b.len(), "the null buffer has the wrong length");
            check(nb.null_count() as u64 == nulls, "the null buffer has the wrong count");
            for i in 0..b.len() {
                check(nb.is_valid(i) == b[i], "the null buffer differs from the bits");
            }
        }
        Err(_) => check(false, "making a null buffer returned an error"),
    }
    let v = l.clone().into_validity();
    for i in 0..b.len() {
        check(v.is_valid(i) == b[i], "logical validity turned into validity differs from the bits");
    }
    let a = l.into_array();
    check(a.dtype() == &Validity::DTYPE, "the array of a logical validity has another type");
    check_canon(&a, &Ref::new(b.to_vec(), vec![true; b.len()], false));
}

/// Validity on its own: b = length, c = layout + 4 * layout of the other side; a = 0 queries, 1 slice, 2 take, 3 filter, 4 and, 5 from bits, 6 concatenation; + 8 * encoding of bitmaps
#[no_mangle]
pub extern "C" fn h_validity(a: u64, b: u64, c: u64) {
    VENC.store(a / 8, Relaxed);
    let n = b as usize;
    let (v, bits) = make(n, c % 4);
    let ok = |r: vortex_error::VortexResult<Validity>, want: &[bool]| match r {
        Ok(x) => {
            check(x.nullability() == nullability(c != 0), "the result has another nullability");
            check_bits(&x, want)
        }
        Err(_) => check(false, "the operation returned an error"),
    };
    reach(1);
    match a % 8 {
        0 => {
            check(v.nullability() == nullability(c != 0), "nullability differs");
            check_bits(&v, &bits);
            check_bits(&v.clone().into_nullable(), &bits);
            check(v.into_nullable().nullability() == nullability(true), "into_nullable is not nullable");
        }
        1 => {
            let s = choose(n + 1);
            let e = s + choose(n + 1 - s);
            ok(v.slice(s, e), &bits[s..e]);
        }
        2 => {
            let k = choose(3);
            let ix: Vec<usize> = (0..k).map(|_| choose(n.max(1))).filter(|i| *i < n).collect();
            let want: Vec<bool> = ix.iter().map(|i| bits[*i]).collect();
            let ix: Vec<u32> = ix.into_iter().map(|i| i as u32).collect();
            ok(v.take(&PrimitiveArray::from(ix).into_array()), &want);
        }
        3 => {
            let mask = choose_mask(n);
            let want: Vec<bool> = mask.iter().map(|i| bits[*i]).collect();
            let m: Vec<bool> = (0..n).map(|i| mask.contains(&i)).collect();
            ok(v.filter(&BoolArray::from(m).into_array()), &want);
        }
        4 => {
            let (w, wb) = make(n, c / 4);
            let want: Vec<bool> = (0..n).map(|i| bits[i] & wb[i]).collect();
            ok(v.and(w), &want);
        }
        5 => {
            for v in [
                Validity::from(bits.clone()),
                Validity::from(BooleanBuffer::from(bits.clone())),
                Validity::from(NullBuffer::new(BooleanBuffer::from(bits.clone()))),
                bits.iter().map(|b| b.then_some(1)).collect::<Vec<_>>().iter().collect(),
            ] {
                check(v.nullability() == nullability(true), "validity made from bits is not nullable");
                check_bits(&v, &bits);
            }
            let (a, _) = (BoolArray::from(bits.clone()).into_array(), ());
            match LogicalValidity::try_from(a) {
                Ok(l) => {
                    let all = bits.iter().fold(true, |x, y| x & *y);
                    check(l.all_valid() == all, "a bitmap is all valid exactly when every bit is set");
                    check_logical(l, &bits)
                }
                Err(_) => check(false, "a bitmap makes no logical validity"),
            }
        }
        _ => {
            let (w, wb) = make(1, c / 4);
            let (u, ub) = make(2, c % 4);
            let want = [&bits[..], &wb[..], &ub[..]].concat();
            let x: Validity = [v.to_logical(n), w.to_logical(1), u.to_logical(2)].into_iter().collect();
            check(x.nullability() == nullability(true), "concatenated validity is not nullable");
            check_bits(&x, &want);
        }
    }
    VENC.store(0, Relaxed);
}

/// The nulls of an array, by row, as a whole, by their count, decoded, and after taking and filtering: a = type + 16 * encoding, b = length, c = validity mode
#[no_mangle]
pub extern "C" fn h_nulls(a: u64, b: u64, c: u64) {
    by_elt!(a % 16, |T| {
        let (x, m) = build::<T>(a / 16, b as usize, c % 4);
        let n = m.len();
        reach(1);
        let agree = |x: &Array, want: &[bool]| {
            let mut nulls = 0u64;
            for w in want {
                nulls += !*w as u64;
            }
            check_logical(x.with_dyn(|a| a.logical_validity()), want);
            for i in 0..want.len() {
                check(x.with_dyn(|a| a.is_valid(i)) == want[i], "is_valid differs from the bits");
            }
            let s = x.statistics().compute(Stat::NullCount).and_then(|s| usize::try_from(&s).ok());
            check(s.map_or(true, |k| k as u64 == nulls), "the null count of the array is wrong");
            match x.clone().into_canonical() {
                Ok(k) => {
                    let k: Array = k.into();
                    check_logical(k.with_dyn(|a| a.logical_validity()), want);
                    let s = k.statistics().compute(Stat::NullCount).and_then(|s| usize::try_from(&s).ok());
                    check(s.map_or(true, |k| k as u64 == nulls), "the null count of the decoded array is wrong");
                }
                Err(_) => check(false, "decoding returned an error"),
            }
        };
        agree(&x, &m.valid);
        if n > 0 {
            let ix = [n - 1, 0, n - 1];
            let want: Vec<bool> = ix.iter().map(|i| m.valid[*i]).collect();
            match take(&x, &PrimitiveArray::from(ix.map(|i| i as u64).to_vec()).into_array()) {
                Ok(t) => agree(&t, &want),
                Err(_) => check(false, "take returned an error"),
            }
            let mask: Vec<bool> = (0..n).map(|i| i % 2 == 0).collect();
            let want: Vec<bool> = m.valid.iter().step_by(2).copied().collect();
            match filter(&x, BoolArray::from(mask).into_array()) {
                Ok(t) => agree(&t, &want),
                Err(_) => check(false, "filter returned an error"),
            }
        }
    })
}

/// Encodings of the chunks of a column, by the job's variant.
const MIX: [[u64; 3]; 8] = [
    [CANON, CANON, CANON], [CANON_SLICED, CONSTANT, CANON], [CONSTANT, CONSTANT, CONSTANT], [SPARSE, CANON, DICT],
    [RUNEND, SPARSE, CANON_SLICED], [CHUNKED, CANON, CHUNKED], [CANON, CHUNKED_MIXED, CANON], [DICT, RUNEND, DICT],
];
/// Rows in three chunks of chosen lengths, and the same rows in one: a = type + 16 * mix of encodings,
/// b = total length, c = validity mode + 4 * (0 as it is, 1 rechunked, 2 chunk by chunk, 3 chunks of chunks)
#[no_mangle]
pub extern "C" fn h_chunks(a: u64, b: u64, c: u64) {
    let n = b as usize;
    let mode = c % 4;
    by_elt!(a % 16, |T| {
        let es = MIX[(a / 16) as usize];
        let i = choose(n + 1);
        let j = i + choose(n + 1 - i);
        let parts: Vec<(Array, Ref<T>)> = (0..3)
            .map(|k| {
                let len = [i, j - i, n - j][k];
                let m = match (mode, k) {
                    (3, 0) => 1,
                    (3, 2) => 2,
                    _ => mode,
                };
                // constants have one row for all
                let m = if es[k] == CONSTANT && m == 3 { 1 } else { m };
                build::<T>(es[k], len, m)
            })
            .collect();
        let m = Ref::concat(&parts.iter().map(|p| p.1.clone()).collect::<Vec<_>>());
        let d = T::dtype(m.null());
        let chunks: Vec<Array> = parts.iter().map(|p| p.0.clone()).collect();
        let Ok(x) = ChunkedArray::try_new(chunks.clone(), d.clone()) else {
            return check(false, "chunks of one type make no array");
        };
        reach(1);
        match c / 4 {
            0 => check_all(&x.clone().into_array(), &m),
            1 => {
                let (bytes, size) = ([0, 16, 1 << 16][choose(3)], choose(n + 2));
                match x.rechunk(bytes, size) {
                    Ok(r) => {
                        check_all(&r.clone().into_array(), &m);
                        for k in r.chunks() {
                            check(k.dtype() == &d, "a new chunk has another type");
                        }
                    }
                    Err(_) => check(false, "rechunking returned an error"),
                }
            }
            2 => {
                check(x.nchunks() == 3, "number of chunks differs");
                for (k, a) in x.chunks().enumerate() {
                    check_canon(&a, &parts[k].1);
                }
                for k in 0..3 {
                    match x.chunk(k) {
                        Ok(a) => check_valid(&a, &parts[k].1),
                        Err(_) => check(false, "a chunk is missing"),
                    }
                }
                check(x.chunk(3).is_err(), "a chunk past the last did not return an error");
                let other = if m.nullable { T::dtype(nullability(false)) } else { T::dtype(nullability(true)) };
                check(ChunkedArray::try_new(chunks, other).is_err(), "chunks of another type did not return an error");
                let mut k = 0;
                for a in x.array_iterator() {
                    match a {
                        Ok(a) => check_canon(&a, &parts[k].1),
                        Err(_) => check(false, "iterating over chunks returned an error"),
                    }
                    k += 1;
                }
                check(k == 3, "iteration did not visit every chunk");
                let r: ChunkedArray = parts.iter().map(|p| p.0.clone()).collect();
                check_canon(&r.into_array(), &m);
            }
            _ => {
                let y = ChunkedArray::try_new(vec![], d.clone()).unwrap().into_array();
                match ChunkedArray::try_new(vec![y.clone(), x.into_array(), y, parts[1].0.clone()], d) {
                    Ok(z) => check_all(&z.into_array(), &Ref::concat(&[m, parts[1].1.clone()])),
                    Err(_) => check(false, "chunks of one type make no array"),
                }
            }
        }
    })
}
