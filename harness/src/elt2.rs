//! Element types beyond numbers and booleans: strings, timestamps, records; and their encodings.
use std::cmp::Ordering;
use std::sync::Arc;

use vortex::array::{ChunkedArray, PrimitiveArray, StructArray, TemporalArray, VarBinArray, VarBinViewArray};
use vortex::validity::{ArrayValidity, Validity};
use vortex::variants::StructArrayTrait;
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
use vortex_buffer::Buffer;
use vortex_datetime_dtype::TimeUnit;
use vortex_datetime_parts::DateTimePartsArray;
use vortex_dtype::{DType, NativePType, Nullability, StructDType};
use vortex_error::VortexResult;
use vortex_fsst::FSSTArray;
use vortex_scalar::{Scalar, ScalarValue};

use crate::arr::*;
use crate::enc::*;
use crate::h::*;

pub const VIEW: u64 = 7;
pub const VIEW2: u64 = 8;
pub const FSST: u64 = 9;
pub const DTPARTS: u64 = 7;
pub const DTPARTS32: u64 = 8;

const CAP: usize = 14;
/// A string (`U`, of ASCII characters) or a byte string of concrete length up to `CAP`.
#[derive(Clone, Copy, Default)]
pub struct Txt<const U: bool> {
    n: usize,
    b: [u8; CAP],
}
pub type Str = Txt<true>;
pub type Bin = Txt<false>;
impl<const U: bool> Txt<U> {
    pub fn of_len(n: usize) -> Self {
        let mut r = Self { n, b: [0; CAP] };
        let v = sym_vec::<u8>(n);
        for i in 0..n {
            if U {
                assume(v[i] < 0x80);
            }
            r.b[i] = v[i];
        }
        r
    }
    pub fn bytes(&self) -> &[u8] {
        &self.b[..self.n]
    }
    pub fn of(s: &[u8]) -> Self {
        let mut r = Self { n: s.len(), b: [0; CAP] };
        check(s.len() <= CAP, "a string grew");
        r.b[..s.len()].copy_from_slice(s);
        r
    }
}
/// Lengths on both sides of the limit (12) up to which a view stores the bytes inline.
const LENS: [[usize; 3]; 4] = [[1, 1, 1], [0, 13, 2], [13, 1, 0], [14, 13, 12]];
impl<const U: bool> Elt for Txt<U> {
    const CODE: u64 = if U { 11 } else { 12 };
    fn dtype(n: Nullability) -> DType {
        if U {
            DType::Utf8(n)
        } else {
            DType::Binary(n)
        }
    }
    fn scalar(self, n: Nullability) -> Scalar {
        if U {
            Scalar::utf8(unsafe { String::from_utf8_unchecked(self.bytes().to_vec()) }, n)
        } else {
            Scalar::binary(Buffer::from(self.bytes().to_vec()), n)
        }
    }
    fn of_scalar(s: &Scalar) -> Option<Self> {
        match s.value() {
            ScalarValue::BufferString(b) if U => Some(Self::of(b.as_bytes())),
            ScalarValue::Buffer(b) if !U => Some(Self::of(b.as_slice())),
            _ => None,
        }
    }
    fn make(vals: Vec<Self>, v: Validity) -> Array {
        let mut offsets = vec![2u32];
        let mut bytes = vec![1u8, 2];
        for x in &vals {
            bytes.extend_from_slice(x.bytes());
            offsets.push(bytes.len() as u32);
        }
        bytes.push(3);
        let d = Self::dtype(nullability(v != Validity::NonNullable));
        VarBinArray::try_new(PrimitiveArray::from(offsets).into_array(), PrimitiveArray::from(bytes).into_array(), d, v).unwrap().into_array()
    }
    fn decode(a: Array) -> VortexResult<(Vec<Self>, Vec<bool>, DType)> {
        let p = a.into_varbinview()?;
        let valid: Vec<bool> = (0..p.len()).map(|i| p.is_valid(i)).collect();
        let mut vals = vec![];
        for i in 0..p.len() {
            vals.push(if valid[i] { Self::of(&p.bytes_at(i)?) } else { Self::default() });
        }
        Ok((vals, valid, p.dtype().clone()))
    }
    fn many(n: usize) -> Vec<Self> {
        if n == 0 {
            return vec![];
        }
        let k = LENS[choose(LENS.len())];
        (0..n).map(|i| Self::of_len(k[i % 3])).collect()
    }
    fn same(self, o: Self) -> bool {
        let mut r = self.n == o.n;
        for i in 0..self.n.min(o.n) {
            r &= self.b[i] == o.b[i];
        }
        r
    }
    fn order(self, o: Self) -> Ordering {
        self.bytes().cmp(o.bytes())
    }
    fn less(self, o: Self) -> bool {
        let (mut lt, mut eq) = (false, true);
        for i in 0..self.n.min(o.n) {
            lt |= eq & (self.b[i] < o.b[i]);
            eq &= self.b[i] == o.b[i];
        }
        lt | (eq & (self.n < o.n))
    }
}
impl<const U: bool> Enc for Txt<U> {
    fn extra(enc: u64, n: usize, mode: u64) -> Option<(Array, Ref<Self>)> {
        Some(match enc {
            VIEW => {
                let vals = Self::many(n);
                let (_, valid, nullable) = sym_validity(n, if mode == 3 { 2 } else { mode });
                let valid = if mode == 3 { (0..n).map(|_| choose(2) == 1).collect() } else { valid };
                let a = VarBinViewArray::from_iter((0..n).map(|i| valid[i].then(|| vals[i].bytes().to_vec())), Self::dtype(nullability(nullable)));
                (a.into_array(), Ref::new(vals, valid, nullable))
            }
            VIEW2 => {
                // views into two buffers, in the layout of the Arrow specification
                let vals = Self::many(n);
                let (v, valid, nullable) = sym_validity(n, mode);
                let mut bufs = [vec![7u8], vec![]];
                let mut views: Vec<u8> = vec![];
                for x in vals.iter() {
                    views.extend_from_slice(&(x.n as u32).to_le_bytes());
                    if x.n <= 12 {
                        views.extend_from_slice(&x.b[..12]);
                    } else {
                        views.extend_from_slice(&x.b[..4]);
                        let k = choose(2);
                        views.extend_from_slice(&(k as u32).to_le_bytes());
                        views.extend_from_slice(&(bufs[k].len() as u32).to_le_bytes());
                        bufs[k].extend_from_slice(x.bytes());
                    }
                }
                let bufs = bufs.into_iter().map(|b| PrimitiveArray::from(b).into_array()).collect();
                let a = VarBinViewArray::try_new(PrimitiveArray::from(views).into_array(), bufs, Self::dtype(nullability(nullable)), v).unwrap();
                (a.into_array(), Ref::new(vals, valid, nullable))
            }
            FSST => {
                // three symbols of symbolic bytes; every row a chosen sequence of codes and escapes
                let lens = [1usize, 2, 8];
                let sym: Vec<Self> = lens.iter().map(|l| Self::of_len(*l)).collect();
                for s in &sym {
                    assume(s.n == 1 || s.b[s.n - 1] != 0);
                }
                let words: Vec<u64> = sym.iter().map(|s| s.bytes().iter().rev().fold(0, |a, b| (a << 8) | *b as u64)).collect();
                let (v, valid, nullable) = sym_validity(n, mode);
                let k = choose(3);
                let (mut codes, mut ends, mut ulens, mut vals) = (vec![], vec![0i32], vec![], vec![]);
                for i in 0..n {
                    // a null row is encoded as an empty one
                    let seq: &[u8] = if valid[i] { [&[1u8, 0][..], &[], &[2, 255, 1], &[255], &[255, 0]][(i + k) % 5] } else { &[] };
                    let mut t = vec![];
                    for c in seq {
                        codes.push(*c);
                        if *c == 255 {
                            let x = Self::of_len(1);
                            codes.push(x.b[0]);
                            t.push(x.b[0]);
                        } else {
                            t.extend_from_slice(sym[*c as usize].bytes());
                        }
                    }
                    ends.push(codes.len() as i32);
                    ulens.push(t.len() as i32);
                    vals.push(Self::of(&t));
                }
                let c = VarBinArray::try_new(PrimitiveArray::from(ends).into_array(), PrimitiveArray::from(codes).into_array(), DType::Binary(nullability(nullable)), v).unwrap();
                let a = FSSTArray::try_new(
                    Self::dtype(nullability(nullable)),
                    PrimitiveArray::from(words).into_array(),
                    PrimitiveArray::from(vec![1u8, 2, 8]).into_array(),
                    c.into_array(),
                    PrimitiveArray::from(ulens).into_array(),
                )
                .unwrap();
                (a.into_array(), Ref::new(vals, valid, nullable))
            }
            _ => return None,
        })
    }
}

/// A timestamp in milliseconds, in UTC.
#[derive(Clone, Copy, Default)]
pub struct Ts(pub i64);
pub const TS_UNIT: TimeUnit = TimeUnit::Ms;
pub const TS_DIV: i64 = 1000;
pub fn ts_dtype(unit: TimeUnit, tz: Option<String>, nullable: bool) -> DType {
    let v = if nullable { Validity::AllValid } else { Validity::NonNullable };
    Array::from(TemporalArray::new_timestamp(PrimitiveArray::from_vec(Vec::<i64>::new(), v).into_array(), unit, tz)).dtype().clone()
}
pub fn ts_decode(a: Array) -> VortexResult<(Vec<i64>, Vec<bool>, DType)> {
    let e = a.into_extension()?;
    let d = e.dtype().clone();
    let valid: Vec<bool> = (0..e.len()).map(|i| e.is_valid(i)).collect();
    let (v, ok, _) = i64::decode(e.storage())?;
    for i in 0..ok.len() {
        check(ok[i] == valid[i], "extension array: validity differs from its storage's");
    }
    Ok((v, valid, d))
}
impl Elt for Ts {
    const CODE: u64 = 13;
    fn dtype(n: Nullability) -> DType {
        ts_dtype(TS_UNIT, Some("UTC".to_string()), n == Nullability::Nullable)
    }
    fn scalar(self, n: Nullability) -> Scalar {
        let DType::Extension(e, _) = Self::dtype(n) else { unreachable!() };
        Scalar::extension(e, Scalar::primitive(self.0, n))
    }
    fn of_scalar(s: &Scalar) -> Option<Self> {
        i64::try_from(&Scalar::new(DType::Primitive(<i64 as NativePType>::PTYPE, s.dtype().nullability()), s.value().clone())).ok().map(Ts)
    }
    fn make(vals: Vec<Self>, v: Validity) -> Array {
        let p = PrimitiveArray::from_vec(vals.into_iter().map(|t| t.0).collect(), v).into_array();
        TemporalArray::new_timestamp(p, TS_UNIT, Some("UTC".to_string())).into()
    }
    fn decode(a: Array) -> VortexResult<(Vec<Self>, Vec<bool>, DType)> {
        let (v, ok, d) = ts_decode(a)?;
        Ok((v.into_iter().map(Ts).collect(), ok, d))
    }
    fn many(n: usize) -> Vec<Self> {
        sym_vec::<i64>(n).into_iter().map(Ts).collect()
    }
    fn same(self, o: Self) -> bool {
        self.0 == o.0
    }
    fn order(self, o: Self) -> Ordering {
        self.0.cmp(&o.0)
    }
    fn less(self, o: Self) -> bool {
        self.0 < o.0
    }
}
impl Enc for Ts {
    fn extra(enc: u64, n: usize, mode: u64) -> Option<(Array, Ref<Self>)> {
        let (days, m) = sym_arr::<i32>(n, mode);
        let secs: Vec<u32> = (0..n).map(|_| u32::any()).collect();
        let subs: Vec<u16> = (0..n).map(|_| u16::any()).collect();
        let vals = (0..n).map(|i| Ts(m.vals[i] as i64 * 86_400 * TS_DIV + secs[i] as i64 * TS_DIV + subs[i] as i64)).collect();
        let d = Self::dtype(m.null());
        let a = match enc {
            DTPARTS => {
                let v = m.valid.clone();
                let days = PrimitiveArray::from_vec(m.vals.iter().map(|d| *d as i64).collect(), days.with_dyn(|a| a.logical_validity()).into_validity());
                let days = if m.nullable { days } else { PrimitiveArray::from_vec(m.vals.iter().map(|d| *d as i64).collect(), Validity::NonNullable) };
                let _ = v;
                DateTimePartsArray::try_new(
                    d,
                    days.into_array(),
                    PrimitiveArray::from(secs.iter().map(|d| *d as i64).collect::<Vec<_>>()).into_array(),
                    PrimitiveArray::from(subs.iter().map(|d| *d as i64).collect::<Vec<_>>()).into_array(),
                )
            }
            DTPARTS32 => DateTimePartsArray::try_new(d, days, PrimitiveArray::from(secs).into_array(), PrimitiveArray::from(subs).into_array()),
            _ => return None,
        };
        Some((a.unwrap().into_array(), Ref::new(vals, m.valid, m.nullable)))
    }
}

/// A record of a number and a flag.
#[derive(Clone, Copy, Default)]
pub struct Rec(pub i32, pub bool);
fn rec_struct() -> StructDType {
    StructDType::new(vec!["a".into(), "b".into()].into(), vec![i32::dtype(nullability(false)), bool::dtype(nullability(false))])
}
impl Elt for Rec {
    const CODE: u64 = 14;
    fn dtype(n: Nullability) -> DType {
        DType::Struct(rec_struct(), n)
    }
    fn scalar(self, n: Nullability) -> Scalar {
        Scalar::r#struct(Self::dtype(n), vec![self.0.scalar(nullability(false)).into_value(), self.1.scalar(nullability(false)).into_value()])
    }
    fn of_scalar(s: &Scalar) -> Option<Self> {
        match s.value() {
            ScalarValue::List(l) if l.len() == 2 => {
                let a = i32::of_scalar(&Scalar::new(i32::dtype(nullability(false)), l[0].clone()))?;
                let b = bool::of_scalar(&Scalar::new(bool::dtype(nullability(false)), l[1].clone()))?;
                Some(Rec(a, b))
            }
            _ => None,
        }
    }
    fn make(vals: Vec<Self>, v: Validity) -> Array {
        let n = vals.len();
        let a = PrimitiveArray::from(vals.iter().map(|r| r.0).collect::<Vec<_>>()).into_array();
        let b = bool::make(vals.iter().map(|r| r.1).collect(), Validity::NonNullable);
        StructArray::try_new(vec!["a".into(), "b".into()].into(), vec![a, b], n, v).unwrap().into_array()
    }
    fn decode(a: Array) -> VortexResult<(Vec<Self>, Vec<bool>, DType)> {
        let s = a.into_struct()?;
        let d = s.dtype().clone();
        let n = s.len();
        let valid: Vec<bool> = (0..n).map(|i| s.is_valid(i)).collect();
        check(s.nfields() == 2, "decoded struct has another number of fields");
        let (Some(a), Some(b)) = (s.field(0), s.field(1)) else {
            check(false, "decoded struct lacks a field");
            return Ok((vec![], vec![], d));
        };
        check((a.len() == n) & (b.len() == n), "decoded struct has fields of another length");
        let (a, _, _) = i32::decode(a)?;
        let (b, _, _) = bool::decode(b)?;
        Ok(((0..n).map(|i| Rec(a[i], b[i])).collect(), valid, d))
    }
    fn many(n: usize) -> Vec<Self> {
        let b = sym_bools(n);
        sym_vec::<i32>(n).into_iter().zip(b).map(|(a, b)| Rec(a, b)).collect()
    }
    fn same(self, o: Self) -> bool {
        (self.0 == o.0) & (self.1 == o.1)
    }
    fn order(self, o: Self) -> Ordering {
        (self.0, self.1).cmp(&(o.0, o.1))
    }
    fn less(self, o: Self) -> bool {
        (self.0 < o.0) | ((self.0 == o.0) & !self.1 & o.1)
    }
}
impl Enc for Rec {
    fn extra(enc: u64, n: usize, mode: u64) -> Option<(Array, Ref<Self>)> {
        match enc {
            // fields in encodings of their own
            VIEW | VIEW2 => {
                let (a, ma) = build::<i32>(if enc == VIEW { CHUNKED } else { FOR_BITPACKED }, n, 0);
                let (b, mb) = build::<bool>(if enc == VIEW { BYTEBOOL } else { CANON }, n, 0);
                let (v, valid, nullable) = sym_validity(n, mode);
                let s = StructArray::try_new(vec!["a".into(), "b".into()].into(), vec![a, b], n, v).unwrap();
                Some((s.into_array(), Ref::new((0..n).map(|i| Rec(ma.vals[i], mb.vals[i])).collect(), valid, nullable)))
            }
            _ => None,
        }
    }
}
#[allow(dead_code)]
fn unused(a: Arc<[u8]>, c: ChunkedArray) {
    let _ = (a, c);
}
