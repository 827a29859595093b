//! Building arrays over symbolic data next to a plain reference model, and comparing the two.
use std::cmp::Ordering;

use vortex::array::{BoolArray, PrimitiveArray};
use vortex::compute::unary::scalar_at;
use vortex::validity::{ArrayValidity, Validity};
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
use vortex_dtype::{DType, NativePType, Nullability};
use vortex_error::VortexResult;
use vortex_scalar::Scalar;

use crate::h::*;

pub fn nullability(nullable: bool) -> Nullability {
    if nullable {
        Nullability::Nullable
    } else {
        Nullability::NonNullable
    }
}

/// An element type of the arrays under test, with its own (independent) meaning of equality and order.
pub trait Elt: Copy + Default + 'static {
    /// type code used by `by_elt!`
    const CODE: u64;
    fn dtype(n: Nullability) -> DType;
    fn scalar(self, n: Nullability) -> Scalar;
    fn of_scalar(s: &Scalar) -> Option<Self>;
    fn make(vals: Vec<Self>, v: Validity) -> Array;
    /// decoded values, decoded validity, decoded dtype
    fn decode(a: Array) -> VortexResult<(Vec<Self>, Vec<bool>, DType)>;
    fn many(n: usize) -> Vec<Self>;
    fn same(self, o: Self) -> bool;
    fn order(self, o: Self) -> Ordering;
    fn less(self, o: Self) -> bool;
    fn leq(self, o: Self) -> bool {
        !o.less(self)
    }
    fn any() -> Self {
        Self::many(1)[0]
    }
    fn not_number(self) -> bool {
        false
    }
    /// not a NaN and not a negative zero
    fn ordinary(self) -> bool {
        true
    }
}
/// Exact subtraction, where there is one.
pub trait Minus: Sized {
    fn minus(self, o: Self) -> Option<Self>;
}
/// What a checked conversion between numeric types yields.
pub trait Convert<U> {
    fn convert(self) -> Option<U>;
}
macro_rules! minus {
    ($($t:ident)*) => {$( impl Minus for $t { fn minus(self, o: Self) -> Option<Self> { self.checked_sub(o) } } )*};
}
minus! { u8 u16 u32 u64 i8 i16 i32 i64 }
impl Minus for f32 { fn minus(self, o: Self) -> Option<Self> { Some(self - o) } }
impl Minus for f64 { fn minus(self, o: Self) -> Option<Self> { Some(self - o) } }
macro_rules! conv_int {
    ($($t:ident: $($u:ident)*;)*) => {$($( impl Convert<$u> for $t { fn convert(self) -> Option<$u> { <$u>::try_from(self).ok() } } )*)*};
}
conv_int! {
    u8: u8 u16 u32 u64 i8 i16 i32 i64; u16: u8 u16 u32 u64 i8 i16 i32 i64; u32: u8 u16 u32 u64 i8 i16 i32 i64; u64: u8 u16 u32 u64 i8 i16 i32 i64;
    i8: u8 u16 u32 u64 i8 i16 i32 i64; i16: u8 u16 u32 u64 i8 i16 i32 i64; i32: u8 u16 u32 u64 i8 i16 i32 i64; i64: u8 u16 u32 u64 i8 i16 i32 i64;
}
macro_rules! conv_to_float {
    ($($t:ident)*) => {$( impl Convert<f32> for $t { fn convert(self) -> Option<f32> { Some(self as f32) } } impl Convert<f64> for $t { fn convert(self) -> Option<f64> { Some(self as f64) } } )*};
}
conv_to_float! { u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 }
macro_rules! conv_from_float {
    ($f:ident: $($u:ident $lo:expr, $hi:expr;)*) => {$(
        impl Convert<$u> for $f {
            // truncation towards zero, where the result fits: `lo` and `hi` are the first values that do not
            fn convert(self) -> Option<$u> { if self > $lo && self < $hi { Some(self as $u) } else { None } }
        }
    )*};
}
conv_from_float! {
    f32: u8 -1.0, 256.0; u16 -1.0, 65536.0; u32 -1.0, 4294967296.0; u64 -1.0, 18446744073709551616.0;
         i8 -129.0, 128.0; i16 -32769.0, 32768.0; i32 -2147483904.0, 2147483648.0; i64 -9223373136366403584.0, 9223372036854775808.0;
}
conv_from_float! {
    f64: u8 -1.0, 256.0; u16 -1.0, 65536.0; u32 -1.0, 4294967296.0; u64 -1.0, 18446744073709551616.0;
         i8 -129.0, 128.0; i16 -32769.0, 32768.0; i32 -2147483649.0, 2147483648.0; i64 -9223372036854777856.0, 9223372036854775808.0;
}
fn decode_prim<T: NativePType>(a: Array) -> VortexResult<(Vec<T>, Vec<bool>, DType)> {
    let p = a.into_primitive()?;
    if p.ptype() != T::PTYPE {
        check(false, "decoded array has another physical type");
    }
    let valid = (0..p.len()).map(|i| p.is_valid(i)).collect();
    let lv = p.logical_validity().into_validity();
    for i in 0..p.len() {
        check(lv.is_valid(i) == p.is_valid(i), "decoded array: the two views of validity differ");
    }
    Ok((p.maybe_null_slice::<T>().to_vec(), valid, p.dtype().clone()))
}
macro_rules! elt_prim {
    ($($t:ident, $c:expr;)*) => {$(
        impl Elt for $t {
            const CODE: u64 = $c;
            fn dtype(n: Nullability) -> DType { DType::Primitive(<$t as NativePType>::PTYPE, n) }
            fn scalar(self, n: Nullability) -> Scalar { Scalar::primitive(self, n) }
            fn of_scalar(s: &Scalar) -> Option<Self> { <$t>::try_from(s).ok() }
            fn make(vals: Vec<Self>, v: Validity) -> Array { PrimitiveArray::from_vec(vals, v).into_array() }
            fn decode(a: Array) -> VortexResult<(Vec<Self>, Vec<bool>, DType)> { decode_prim::<$t>(a) }
            fn many(n: usize) -> Vec<Self> { sym_vec::<$t>(n) }
            elt_ord!($t);
        }
    )*};
}
macro_rules! elt_ord {
    (f32) => {
        fn same(self, o: Self) -> bool { self.to_bits() == o.to_bits() }
        fn order(self, o: Self) -> Ordering { Ord::cmp(&key32(self), &key32(o)) }
        fn less(self, o: Self) -> bool { key32(self) < key32(o) }
        fn not_number(self) -> bool { (self.to_bits() & 0x7fff_ffff) > 0x7f80_0000 }
        fn ordinary(self) -> bool { !self.not_number() & (self.to_bits() != 0x8000_0000) }
    };
    (f64) => {
        fn same(self, o: Self) -> bool { self.to_bits() == o.to_bits() }
        fn order(self, o: Self) -> Ordering { Ord::cmp(&key64(self), &key64(o)) }
        fn less(self, o: Self) -> bool { key64(self) < key64(o) }
        fn not_number(self) -> bool { (self.to_bits() & 0x7fff_ffff_ffff_ffff) > 0x7ff0_0000_0000_0000 }
        fn ordinary(self) -> bool { !self.not_number() & (self.to_bits() != 0x8000_0000_0000_0000) }
    };
    ($t:ident) => {
        fn same(self, o: Self) -> bool { self == o }
        fn order(self, o: Self) -> Ordering { Ord::cmp(&self, &o) }
        fn less(self, o: Self) -> bool { self < o }
    };
}
/// IEEE 754 total order as integer order
fn key32(f: f32) -> i32 {
    let b = f.to_bits() as i32;
    b ^ (((b >> 31) as u32) >> 1) as i32
}
fn key64(f: f64) -> i64 {
    let b = f.to_bits() as i64;
    b ^ (((b >> 63) as u64) >> 1) as i64
}
elt_prim! { u8, 0; u16, 1; u32, 2; u64, 3; i8, 4; i16, 5; i32, 6; i64, 7; f32, 8; f64, 9; }
impl Elt for bool {
    const CODE: u64 = 10;
    fn dtype(n: Nullability) -> DType {
        DType::Bool(n)
    }
    fn scalar(self, n: Nullability) -> Scalar {
        Scalar::bool(self, n)
    }
    fn of_scalar(s: &Scalar) -> Option<Self> {
        bool::try_from(s).ok()
    }
    fn make(vals: Vec<Self>, v: Validity) -> Array {
        BoolArray::from_vec(vals, v).into_array()
    }
    fn decode(a: Array) -> VortexResult<(Vec<Self>, Vec<bool>, DType)> {
        let p = a.into_bool()?;
        let valid = (0..p.len()).map(|i| p.is_valid(i)).collect();
        let b = p.boolean_buffer();
        Ok(((0..b.len()).map(|i| b.value(i)).collect(), valid, p.dtype().clone()))
    }
    fn many(n: usize) -> Vec<Self> {
        sym_bools(n)
    }
    fn same(self, o: Self) -> bool {
        self == o
    }
    fn order(self, o: Self) -> Ordering {
        Ord::cmp(&self, &o)
    }
    fn less(self, o: Self) -> bool {
        !self & o
    }
}

/// Reference contents of an array.
#[derive(Clone)]
pub struct Ref<T> {
    pub vals: Vec<T>,
    pub valid: Vec<bool>,
    pub nullable: bool,
}
impl<T: Copy> Ref<T> {
    pub fn new(vals: Vec<T>, valid: Vec<bool>, nullable: bool) -> Self {
        Ref { vals, valid, nullable }
    }
    pub fn len(&self) -> usize {
        self.vals.len()
    }
    pub fn slice(&self, s: usize, e: usize) -> Self {
        Ref { vals: self.vals[s..e].to_vec(), valid: self.valid[s..e].to_vec(), nullable: self.nullable }
    }
    pub fn take(&self, ix: &[usize]) -> Self {
        Ref {
            vals: ix.iter().map(|i| self.vals[*i]).collect(),
            valid: ix.iter().map(|i| self.valid[*i]).collect(),
            nullable: self.nullable,
        }
    }
    pub fn concat(parts: &[Self]) -> Self {
        Ref {
            vals: parts.iter().flat_map(|p| p.vals.iter().copied()).collect(),
            valid: parts.iter().flat_map(|p| p.valid.iter().copied()).collect(),
            nullable: parts.iter().any(|p| p.nullable),
        }
    }
    pub fn null(&self) -> Nullability {
        nullability(self.nullable)
    }
}

/// mode 0: non-nullable, 1: all valid, 2: all invalid, 3: explicit validity bitmap with symbolic bits
pub fn sym_validity(n: usize, mode: u64) -> (Validity, Vec<bool>, bool) {
    match mode {
        0 => (Validity::NonNullable, vec![true; n], false),
        1 => (Validity::AllValid, vec![true; n], true),
        2 => (Validity::AllInvalid, vec![false; n], true),
        _ => {
            let (a, b) = crate::valid::bitmap(n);
            (Validity::Array(a), b, true)
        }
    }
}
/// A canonical array with symbolic values.
pub fn sym_arr<T: Elt>(n: usize, mode: u64) -> (Array, Ref<T>) {
    arr_of(T::many(n), mode)
}
pub fn arr_of<T: Elt>(vals: Vec<T>, mode: u64) -> (Array, Ref<T>) {
    let (v, valid, nullable) = sym_validity(vals.len(), mode);
    (T::make(vals.clone(), v), Ref { vals, valid, nullable })
}
pub fn sym_prim<T: Sym + NativePType>(n: usize, mode: u64) -> (PrimitiveArray, Ref<T>) {
    let vals = sym_vec::<T>(n);
    let (v, valid, nullable) = sym_validity(n, mode);
    (PrimitiveArray::from_vec(vals.clone(), v), Ref { vals, valid, nullable })
}
pub fn prim_of<T: Sym + NativePType>(vals: Vec<T>, mode: u64) -> (PrimitiveArray, Ref<T>) {
    let (v, valid, nullable) = sym_validity(vals.len(), mode);
    (PrimitiveArray::from_vec(vals.clone(), v), Ref { vals, valid, nullable })
}

/// The canonical (decoded) form of `arr` is exactly the model.
pub fn check_canon<T: Elt>(arr: &Array, m: &Ref<T>) {
    check(arr.len() == m.len(), "array length differs from the model");
    check(arr.dtype() == &T::dtype(m.null()), "dtype differs from the model");
    let (s, valid, dtype) = match T::decode(arr.clone()) {
        Ok(p) => p,
        Err(_) => {
            check(false, "decoding returned an error");
            return;
        }
    };
    check(valid.len() == m.len(), "decoded length differs from the model");
    check(dtype == T::dtype(m.null()), "decoded dtype differs from the model");
    check(s.len() == m.len(), "decoded buffer length differs from the model");
    for i in 0..m.len() {
        check(valid[i] == m.valid[i], "decoded validity differs from the model");
        check(!m.valid[i] | s[i].same(m.vals[i]), "decoded value differs from the model");
    }
}

/// Validity reported by the encoded array is the model's.
pub fn check_valid<T: Copy>(arr: &Array, m: &Ref<T>) {
    for i in rows(m.len()) {
        check(arr.with_dyn(|a| a.is_valid(i)) == m.valid[i], "is_valid differs from the model");
    }
    let lv = arr.with_dyn(|a| a.logical_validity());
    check(lv.len() == m.len(), "logical validity has the wrong length");
    let v = lv.into_validity();
    for i in 0..m.len() {
        check(v.is_valid(i) == m.valid[i], "logical validity differs from the model");
    }
}

pub fn check_scalar<T: Elt>(s: &Scalar, m: &Ref<T>, i: usize) {
    check(s.dtype() == &T::dtype(m.null()), "scalar dtype differs from the array dtype");
    if m.valid[i] {
        check(!s.is_null(), "scalar is null where the model is valid");
        match T::of_scalar(s) {
            Some(v) => check(v.same(m.vals[i]), "scalar value differs from the model"),
            None => check(false, "scalar does not convert to its own type"),
        }
    } else {
        check(s.is_null(), "scalar is valid where the model is null");
    }
}
pub fn check_scalars<T: Elt>(arr: &Array, m: &Ref<T>) {
    for i in rows(m.len()) {
        match scalar_at(arr, i) {
            Ok(s) => check_scalar(&s, m, i),
            Err(_) => check(false, "scalar_at returned an error"),
        }
    }
    check(scalar_at(arr, m.len()).is_err(), "scalar_at past the end did not return an error");
}
pub fn check_all<T: Elt>(arr: &Array, m: &Ref<T>) {
    check_valid(arr, m);
    check_canon(arr, m);
    check_scalars(arr, m);
}
/// Runs `$body` with `$T` bound to the element type selected by `$k`.
#[macro_export]
macro_rules! by_elt {
    ($k:expr, |$T:ident| $body:expr) => {
        match $k {
            0 => { type $T = u8; $body }
            1 => { type $T = u16; $body }
            2 => { type $T = u32; $body }
            3 => { type $T = u64; $body }
            4 => { type $T = i8; $body }
            5 => { type $T = i16; $body }
            6 => { type $T = i32; $body }
            7 => { type $T = i64; $body }
            8 => { type $T = f32; $body }
            9 => { type $T = f64; $body }
            10 => { type $T = bool; $body }
            11 => { type $T = $crate::elt2::Str; $body }
            12 => { type $T = $crate::elt2::Bin; $body }
            13 => { type $T = $crate::elt2::Ts; $body }
            _ => { type $T = $crate::elt2::Rec; $body }
        }
    };
}
#[macro_export]
macro_rules! by_ptype {
    ($k:expr, |$T:ident| $body:expr) => {
        match $k {
            0 => { type $T = u8; $body }
            1 => { type $T = u16; $body }
            2 => { type $T = u32; $body }
            3 => { type $T = u64; $body }
            4 => { type $T = i8; $body }
            5 => { type $T = i16; $body }
            6 => { type $T = i32; $body }
            7 => { type $T = i64; $body }
            8 => { type $T = f32; $body }
            _ => { type $T = f64; $body }
        }
    };
}
#[macro_export]
macro_rules! by_uint {
    ($k:expr, |$T:ident| $body:expr) => {
        match $k {
            0 => { type $T = u8; $body }
            1 => { type $T = u16; $body }
            2 => { type $T = u32; $body }
            _ => { type $T = u64; $body }
        }
    };
}
#[macro_export]
macro_rules! by_int {
    ($k:expr, |$T:ident| $body:expr) => {
        match $k {
            0 => { type $T = u8; $body }
            1 => { type $T = u16; $body }
            2 => { type $T = u32; $body }
            3 => { type $T = u64; $body }
            4 => { type $T = i8; $body }
            5 => { type $T = i16; $body }
            6 => { type $T = i32; $body }
            _ => { type $T = i64; $body }
        }
    };
}
