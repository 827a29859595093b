//! Arrays in every encoding, over symbolic data, next to their reference contents.
//! Built through the public constructors, so the builders do not depend on the compressors.
use vortex::array::{ChunkedArray, ConstantArray, PrimitiveArray, SparseArray};
use vortex::compute::slice;
use vortex::validity::Validity;
use vortex::{Array, IntoArray};
use vortex_alp::{ALPArray, ALPRDArray, Exponents};
use vortex_bytebool::ByteBoolArray;
use vortex_dict::DictArray;
use vortex_fastlanes::{BitPackedArray, DeltaArray, FoRArray};
use vortex_runend::RunEndArray;
use vortex_runend_bool::RunEndBoolArray;
use vortex_scalar::{Scalar, ScalarValue};
use vortex_zigzag::ZigZagArray;

use crate::arr::*;
use crate::h::*;

pub const CANON: u64 = 0;
pub const CANON_SLICED: u64 = 1;
pub const CONSTANT: u64 = 2;
pub const CHUNKED: u64 = 3;
pub const SPARSE: u64 = 4;
pub const DICT: u64 = 5;
pub const RUNEND: u64 = 6;
pub const FOR: u64 = 7;
pub const ZIGZAG: u64 = 8;
pub const BITPACKED: u64 = 9;
pub const DELTA: u64 = 10;
pub const BYTEBOOL: u64 = 11;
/// floats: decimal scaling with exceptions
pub const ALP: u64 = 12;
/// frame of reference over bit-packing, as the compressor nests them
pub const FOR_BITPACKED: u64 = 13;
/// floats: front bits in a dictionary with exceptions
pub const ALPRD: u64 = 14;
/// chunks of different encodings
pub const CHUNKED_MIXED: u64 = 15;
/// the encoding in the low bits, sliced out of the middle of a longer array
pub const SLICED: u64 = 16;

pub trait Enc: Elt {
    fn extra(enc: u64, n: usize, mode: u64) -> Option<(Array, Ref<Self>)>;
}

/// Chosen positions among `n`.
pub fn choose_mask(n: usize) -> Vec<usize> {
    if n > SMALL {
        return [0, 5, 63, 64, 100, 1023, 1024, 1030, 2047, 2048, n - 1].iter().copied().filter(|i| *i < n).collect();
    }
    (0..n).filter(|_| choose(2) == 1).collect()
}
/// Chosen strictly increasing run ends covering `n`.
pub fn choose_ends(n: usize) -> Vec<u64> {
    if n > SMALL {
        return (1..=n).filter(|i| *i == n || i % 7 == 0 || *i == 63 || *i == 64).map(|i| i as u64).collect();
    }
    (1..=n).filter(|i| *i == n || choose(2) == 1).map(|i| i as u64).collect()
}

pub fn build<T: Enc>(enc: u64, n: usize, mode: u64) -> (Array, Ref<T>) {
    let (a, m) = build_here(enc, n, mode);
    (crate::io::carry(a, T::CODE), m)
}
fn build_here<T: Enc>(enc: u64, n: usize, mode: u64) -> (Array, Ref<T>) {
    if enc >= SLICED {
        let (a, m) = build::<T>(enc - SLICED, n + 2, mode);
        return (slice(a, 1, n + 1).unwrap(), m.slice(1, n + 1));
    }
    match enc {
        CANON => sym_arr(n, mode),
        CANON_SLICED => {
            let (a, m) = sym_arr::<T>(n + 2, mode);
            (slice(a, 1, n + 1).unwrap(), m.slice(1, n + 1))
        }
        CONSTANT => {
            // 0: non-nullable, 1: nullable and valid, 2: null
            let v = T::any();
            let (s, ok) = match mode {
                2 => (Scalar::null(T::dtype(nullability(true))), false),
                m => (v.scalar(nullability(m != 0)), true),
            };
            (ConstantArray::new(s, n).into_array(), Ref::new(vec![v; n], vec![ok; n], mode != 0))
        }
        CHUNKED => {
            let k = choose_row(0, n);
            let (m1, m2) = match mode {
                0 => (0, 0),
                1 => (1, 2),
                2 => (2, 2),
                _ => (3, 1),
            };
            let (a, ra) = sym_arr::<T>(k, m1);
            let (e, _) = sym_arr::<T>(0, mode.min(1));
            let (b, rb) = sym_arr::<T>(n - k, m2);
            let r = Ref::concat(&[ra, rb]);
            let d = a.dtype_of();
            (ChunkedArray::try_new(vec![a, e, b], d).unwrap().into_array(), r)
        }
        CHUNKED_MIXED => {
            let k = choose_row(0, n);
            let m1 = if mode == 0 { 0 } else { 1 };
            let (a, ra) = build::<T>(CONSTANT, k, if mode == 2 { 2 } else { m1 });
            let (b, rb) = build::<T>(CANON_SLICED, n - k, mode);
            let r = Ref::concat(&[ra, rb]);
            let d = a.dtype_of();
            (ChunkedArray::try_new(vec![a, b], d).unwrap().into_array(), r)
        }
        SPARSE => {
            // 0: non-nullable with a fill value; 1: null fill, valid patches; 2: nullable, non-null fill, valid patches;
            // 3: null fill, patches with their own validity
            let ix = choose_mask(n);
            let (vals, pr) = match mode {
                0 => sym_arr::<T>(ix.len(), 0),
                3 => sym_arr::<T>(ix.len(), 3),
                _ => sym_arr::<T>(ix.len(), 1),
            };
            let fill = T::any();
            let (fs, fv) = if mode == 0 || mode == 2 {
                (fill.scalar(nullability(mode != 0)).into_value(), true)
            } else {
                (ScalarValue::Null, false)
            };
            let mut r = Ref::new(vec![fill; n], vec![fv; n], mode != 0);
            for (j, i) in ix.iter().enumerate() {
                r.vals[*i] = pr.vals[j];
                r.valid[*i] = pr.valid[j];
            }
            let ix: Vec<u64> = ix.iter().map(|i| *i as u64).collect();
            (SparseArray::try_new(PrimitiveArray::from(ix).into_array(), vals, n, fs).unwrap().into_array(), r)
        }
        DICT => {
            // 1: a null at code 0, as the encoder writes it
            let k = 3usize;
            let codes: Vec<u8> = (0..n).map(|i| if n > SMALL { (i * 5 / 7 % k) as u8 } else { choose(k) as u8 }).collect();
            let vals = T::many(k);
            let (v, valid) = match mode {
                0 => (Validity::NonNullable, vec![true; k]),
                1 => {
                    let mut x = vec![true; k];
                    x[0] = false;
                    (Validity::from(x.clone()), x)
                }
                _ => {
                    let (v, valid, _) = sym_validity(k, mode);
                    (v, valid)
                }
            };
            // a dictionary does not repeat its values
            for i in 0..k {
                for j in 0..i {
                    assume(!valid[i] | !valid[j] | !vals[i].same(vals[j]));
                }
            }
            let r = Ref::new(
                codes.iter().map(|c| vals[*c as usize]).collect(),
                codes.iter().map(|c| valid[*c as usize]).collect(),
                mode != 0,
            );
            (DictArray::try_new(PrimitiveArray::from(codes).into_array(), T::make(vals, v)).unwrap().into_array(), r)
        }
        e => T::extra(e, n, mode).unwrap_or_else(|| panic!("no such array")),
    }
}

trait DType_ {
    fn dtype_of(&self) -> vortex_dtype::DType;
}
impl DType_ for Array {
    fn dtype_of(&self) -> vortex_dtype::DType {
        use vortex::ArrayDType;
        self.dtype().clone()
    }
}

pub fn runend<T: Elt>(n: usize, mode: u64) -> (Array, Ref<T>) {
    let ends = choose_ends(n);
    let (vals, pr) = sym_arr::<T>(ends.len(), if mode == 0 { 0 } else { 1 });
    let (v, valid, nullable) = sym_validity(n, mode);
    let mut r = Ref::new(vec![], valid, nullable);
    for i in 0..n {
        let j = ends.iter().position(|e| *e > i as u64).unwrap();
        r.vals.push(pr.vals[j]);
    }
    let ends: Vec<u32> = ends.iter().map(|e| *e as u32).collect();
    (RunEndArray::try_new(PrimitiveArray::from(ends).into_array(), vals, v).unwrap().into_array(), r)
}
fn runend_bool(n: usize, mode: u64) -> (Array, Ref<bool>) {
    let ends = choose_ends(n);
    let start = choose(2) == 1;
    let (v, valid, nullable) = sym_validity(n, mode);
    let mut r = Ref::new(vec![], valid, nullable);
    for i in 0..n {
        let j = ends.iter().position(|e| *e > i as u64).unwrap();
        r.vals.push(start ^ (j % 2 == 1));
    }
    let ends: Vec<u32> = ends.iter().map(|e| *e as u32).collect();
    (RunEndBoolArray::try_new(PrimitiveArray::from(ends).into_array(), start, v).unwrap().into_array(), r)
}

macro_rules! enc_float {
    ($($t:ident $i:ident $u:ident $rbw:expr, $alpb:expr;)*) => {$(
        impl Enc for $t {
            fn extra(enc: u64, n: usize, mode: u64) -> Option<(Array, Ref<Self>)> {
                match enc {
                    RUNEND => Some(runend::<$t>(n, mode)),
                    ALP => {
                        let (c, m) = sym_arr::<$i>(n, mode);
                        // integers that encoding can produce: beyond, several of them may stand for one float
                        for v in &m.vals {
                            assume((v.wrapping_add(1 << $alpb) as $u) < 2 << $alpb);
                        }
                        let mut vals: Vec<$t> = m.vals.iter().map(|v| *v as $t * 10.0 * 0.001).collect();
                        let ix = choose_mask(n);
                        let exc = <$t as Elt>::many(ix.len());
                        for (j, i) in ix.iter().enumerate() {
                            vals[*i] = exc[j];
                        }
                        let patches = (!ix.is_empty()).then(|| {
                            let ix: Vec<u64> = ix.iter().map(|i| *i as u64).collect();
                            SparseArray::try_new(PrimitiveArray::from(ix).into_array(), PrimitiveArray::from_vec(exc, Validity::AllValid).into_array(), n, ScalarValue::Null).unwrap().into_array()
                        });
                        let a = ALPArray::try_new(c, Exponents { e: 3, f: 1 }, patches).unwrap();
                        Some((a.into_array(), Ref::new(vals, m.valid, m.nullable)))
                    }
                    ALPRD => {
                        let dict = [5u16, 3, 9];
                        let codes: Vec<u16> = (0..n).map(|i| if n > SMALL { (i * 5 / 7 % 3) as u16 } else { choose(2) as u16 * 2 }).collect();
                        let (v, valid, nullable) = sym_validity(n, mode);
                        let right: Vec<$u> = sym_vec::<$u>(n).into_iter().map(|x| x & (((1 as $u) << $rbw) - 1)).collect();
                        let mut left: Vec<u16> = codes.iter().map(|c| dict[*c as usize]).collect();
                        let ix = choose_mask(n);
                        let exc = sym_vec::<u16>(ix.len());
                        for (j, i) in ix.iter().enumerate() {
                            left[*i] = exc[j];
                        }
                        let vals = (0..n).map(|i| <$t>::from_bits(((left[i] as $u) << $rbw) | right[i])).collect();
                        let patches = (!ix.is_empty()).then(|| {
                            let ix: Vec<u64> = ix.iter().map(|i| *i as u64).collect();
                            SparseArray::try_new(PrimitiveArray::from(ix).into_array(), PrimitiveArray::from_vec(exc, Validity::AllValid).into_array(), n, ScalarValue::Null).unwrap().into_array()
                        });
                        let a = ALPRDArray::try_new(
                            <$t as Elt>::dtype(nullability(nullable)),
                            PrimitiveArray::from_vec(codes, v).into_array(),
                            dict,
                            PrimitiveArray::from(right).into_array(),
                            $rbw,
                            patches,
                        )
                        .unwrap();
                        Some((a.into_array(), Ref::new(vals, valid, nullable)))
                    }
                    _ => None,
                }
            }
        }
    )*};
}
enc_float! { f32 i32 u32 18, 21; f64 i64 u64 48, 50; }
impl Enc for bool {
    fn extra(enc: u64, n: usize, mode: u64) -> Option<(Array, Ref<Self>)> {
        match enc {
            RUNEND => Some(runend_bool(n, mode)),
            BYTEBOOL => {
                let b = sym_bools(n);
                let (v, valid, nullable) = sym_validity(n, mode);
                Some((ByteBoolArray::try_from_vec(b.clone(), v).unwrap().into_array(), Ref::new(b, valid, nullable)))
            }
            _ => None,
        }
    }
}
/// width of the packed values used by the builders
pub const BW: u8 = 3;
macro_rules! enc_uint {
    ($($u:ident $s:ident;)*) => {$(
        impl Enc for $u {
            fn extra(enc: u64, n: usize, mode: u64) -> Option<(Array, Ref<Self>)> {
                Some(match enc {
                    RUNEND => runend::<$u>(n, mode),
                    FOR => {
                        let (c, r) = sym_arr::<$u>(n, mode);
                        let reference = <$u as Elt>::any();
                        let shift = 1u8;
                        // the encoder's reference is the minimum, shifted: decoding a valid row never wraps
                        for i in 0..n {
                            assume(!r.valid[i] | ((r.vals[i] << shift) >> shift == r.vals[i]) & (r.vals[i] << shift <= <$u>::MAX - reference));
                        }
                        let a = FoRArray::try_new(c, reference.scalar(nullability(false)), shift).unwrap().into_array();
                        (a, Ref::new(r.vals.iter().map(|v| (v << shift).wrapping_add(reference)).collect(), r.valid, r.nullable))
                    }
                    BITPACKED => {
                        let (c, r) = if n > SMALL {
                            // some rows are exceptions, some may be, and some others are symbolic as well
                            let mut vals: Vec<$u> = (0..n).map(|i| background(i) as $u).collect();
                            for i in [1023, 1024, n - 1].into_iter().filter(|i| *i < n) {
                                vals[i] = <$u as Elt>::any();
                                assume((vals[i] < 1 << BW) | (i == 1024));
                            }
                            prim_of(vals, mode)
                        } else {
                            sym_prim::<$u>(n, mode)
                        };
                        (BitPackedArray::encode(&c.into_array(), BW).unwrap().into_array(), r)
                    }
                    DELTA => {
                        let (c, r) = sym_prim::<$u>(n, mode);
                        (DeltaArray::try_from_primitive_array(&c).unwrap().into_array(), r)
                    }
                    FOR_BITPACKED => {
                        let (c, r) = Self::extra(BITPACKED, n, mode)?;
                        let reference = <$u as Elt>::any();
                        for i in 0..n {
                            assume(!r.valid[i] | (r.vals[i] <= <$u>::MAX - reference));
                        }
                        let a = FoRArray::try_new(c, reference.scalar(nullability(false)), 0).unwrap().into_array();
                        (a, Ref::new(r.vals.iter().map(|v| v.wrapping_add(reference)).collect(), r.valid, r.nullable))
                    }
                    _ => return None,
                })
            }
        }
        impl Enc for $s {
            fn extra(enc: u64, n: usize, mode: u64) -> Option<(Array, Ref<Self>)> {
                Some(match enc {
                    RUNEND => runend::<$s>(n, mode),
                    FOR => {
                        let (c, r) = sym_arr::<$u>(n, mode);
                        let reference = <$s as Elt>::any();
                        let shift = 1u8;
                        for i in 0..n {
                            assume(!r.valid[i] | ((r.vals[i] << shift) >> shift == r.vals[i]) & (r.vals[i] << shift <= <$s>::MAX as $u) & (r.vals[i] << shift <= (<$s>::MAX as $u).wrapping_sub(reference as $u)));
                        }
                        let a = FoRArray::try_new(c, reference.scalar(nullability(false)), shift).unwrap().into_array();
                        (a, Ref::new(r.vals.iter().map(|v| ((v << shift) as $s).wrapping_add(reference)).collect(), r.valid, r.nullable))
                    }
                    ZIGZAG => {
                        let (c, r) = sym_arr::<$u>(n, mode);
                        let a = ZigZagArray::try_new(c).unwrap().into_array();
                        (a, Ref::new(r.vals.iter().map(|v| ((v >> 1) as $s) ^ ((v & 1) as $s).wrapping_neg()).collect(), r.valid, r.nullable))
                    }
                    FOR_BITPACKED => {
                        let (c, r) = <$u as Enc>::extra(BITPACKED, n, mode)?;
                        let reference = <$s as Elt>::any();
                        for i in 0..n {
                            assume(!r.valid[i] | (r.vals[i] <= (<$s>::MAX as $u).wrapping_sub(reference as $u)));
                        }
                        let a = FoRArray::try_new(c, reference.scalar(nullability(false)), 0).unwrap().into_array();
                        (a, Ref::new(r.vals.iter().map(|v| (*v as $s).wrapping_add(reference)).collect(), r.valid, r.nullable))
                    }
                    _ => return None,
                })
            }
        }
    )*};
}
enc_uint! { u8 i8; u16 i16; u32 i32; u64 i64; }
