//! Float, dictionary, run-end, boolean, string and timestamp codecs: what the encoder wrote decodes to what it was given.
use arrow_buffer::BooleanBuffer;
use vortex::array::{BoolArray, TemporalArray, VarBinArray, VarBinViewArray};
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
use vortex_alp::{alp_encode_components, ALPArray, Exponents, RDEncoder};
use vortex_bytebool::ByteBoolArray;
use vortex_datetime_dtype::TimeUnit;
use vortex_datetime_parts::{split_temporal, DateTimePartsArray, TemporalParts};
use vortex_dict::{dict_encode_primitive, dict_encode_varbin, dict_encode_varbinview, DictArray};
use vortex_fsst::{fsst_compress, fsst_train_compressor};
use vortex_runend::compress::runend_encode;
use vortex_runend::RunEndArray;
use vortex_runend_bool::compress::runend_bool_encode;
use vortex_runend_bool::RunEndBoolArray;

use crate::arr::*;
use crate::by_ptype;
use crate::elt2::*;
use crate::h::*;

/// decimal scaling with exceptions: a = 0 (f32) or 1 (f64) + 2 * largest exponent, b = length, c = validity mode
#[no_mangle]
pub extern "C" fn h_alp(a: u64, b: u64, c: u64) {
    let e = choose(a as usize / 2 + 1) as u8;
    let f = choose(e as usize + 1) as u8;
    macro_rules! go {
        ($t:ident) => {{
            let (p, m) = sym_prim::<$t>(b as usize, c);
            let (exp, enc, patches) = alp_encode_components::<$t>(&p, Some(Exponents { e, f }));
            reach(1);
            match ALPArray::try_new(enc, exp, patches) {
                Ok(x) => check_all(&x.into_array(), &m),
                Err(_) => check(false, "the encoder's parts make no array"),
            }
        }};
    }
    if a % 2 == 0 {
        go!(f32)
    } else {
        go!(f64)
    }
}
/// front-bit dictionary with exceptions: a = 0 (f32) or 1 (f64) + 2 * sample, b = length, c = validity mode
#[no_mangle]
pub extern "C" fn h_alprd(a: u64, b: u64, c: u64) {
    macro_rules! go {
        ($t:ident, $u:ident) => {{
            let sample: Vec<$t> = match a / 2 {
                0 => vec![1.123_848, 1.123_848, 1.123_848],
                1 => (0..16).map(|i| 1.0 + i as $t * 0.37).collect(),
                2 => (0..24).map(|i| <$t>::from_bits((i as $u).wrapping_mul(0x9E37_79B9_7F4A_7C15u64 as $u))).collect(),
                _ => vec![0.0, -0.0, 1e30, -7.5],
            };
            let enc = RDEncoder::new::<$t>(&sample);
            let (p, m) = sym_prim::<$t>(b as usize, c);
            let x = enc.encode(&p).into_array();
            reach(1);
            check_all(&x, &m);
        }};
    }
    if a % 2 == 0 {
        go!(f32, u32)
    } else {
        go!(f64, u64)
    }
}
/// dictionary of numbers: a = type + 16 * (0 any values, 1 values out of a few bit patterns), b = length, c = validity mode
#[no_mangle]
pub extern "C" fn h_dict(a: u64, b: u64, c: u64) {
    by_ptype!(a % 16, |T| {
        let (p, m) = if a < 16 {
            sym_prim::<T>(b as usize, c)
        } else {
            // zeros of either sign, a NaN, and the largest unsigned number, in the width of the type
            let top = 1u64 << (T::BITS - 1);
            let pats = [0, top, 1, (top - 1) | top];
            prim_of((0..b).map(|_| T::raw(pats[choose(4)])).collect(), c)
        };
        let (codes, vals) = dict_encode_primitive(&p);
        reach(1);
        match DictArray::try_new(codes.into_array(), vals.into_array()) {
            Ok(x) => check_all(&x.into_array(), &m),
            Err(_) => check(false, "the encoder's parts make no array"),
        }
    })
}
/// run ends of numbers: a = type, b = length, c = validity mode
#[no_mangle]
pub extern "C" fn h_runend(a: u64, b: u64, c: u64) {
    by_ptype!(a, |T| {
        let (p, m) = sym_prim::<T>(b as usize, c);
        let (ends, vals) = runend_encode(&p);
        reach(1);
        match RunEndArray::try_new(ends.into_array(), vals.into_array(), p.validity()) {
            Ok(x) => check_all(&x.into_array(), &m),
            Err(_) => check(false, "the encoder's parts make no array"),
        }
        match RunEndArray::encode(p.into_array()) {
            Ok(x) => check_canon(&x.into_array(), &m),
            Err(_) => check(false, "the array does not encode"),
        }
    })
}
/// booleans: a = 0 run ends, 1 bytes, 2 optional bytes; + 4 * rows cut off in front; b = length, c = validity mode
#[no_mangle]
pub extern "C" fn h_bools(a: u64, b: u64, c: u64) {
    let (n, off) = (b as usize, a as usize / 4);
    let vals = sym_bools(n + off);
    let (v, valid, nullable) = sym_validity(n, c);
    let m = Ref::new(vals[off..].to_vec(), valid, nullable);
    let x = match a % 4 {
        0 => {
            let p = BoolArray::try_new(BooleanBuffer::from(vals).slice(off, n), v.clone()).unwrap();
            let (ends, start) = runend_bool_encode(&p);
            reach(1);
            RunEndBoolArray::try_new(ends.into_array(), start, v).map(|x| x.into_array())
        }
        1 => ByteBoolArray::try_from_vec(m.vals.clone(), v).map(|x| x.into_array()),
        _ => Ok(ByteBoolArray::from((0..n).map(|i| m.valid[i].then_some(m.vals[i])).collect::<Vec<_>>()).into_array()),
    };
    match x {
        Ok(x) => check_all(&x, &Ref::new(m.vals, m.valid, m.nullable | (a % 4 == 2))),
        Err(_) => check(false, "the encoder's parts make no array"),
    }
}
/// timestamps: a = unit (0 ns, 1 us, 2 ms, 3 s) + 4 * (0 no time zone, 1 UTC) + 8 * bits of the values, b = length, c = validity mode
#[no_mangle]
pub extern "C" fn h_dtparts(a: u64, b: u64, c: u64) {
    let unit = [TimeUnit::Ns, TimeUnit::Us, TimeUnit::Ms, TimeUnit::S][a as usize % 4];
    let tz = (a / 4 % 2 == 1).then(|| "UTC".to_string());
    let bits = a / 8;
    let (p, m) = sym_prim::<i64>(b as usize, c);
    for v in &m.vals {
        assume((bits >= 64) | (*v >= -(1i64 << (bits.min(63) - 1))) & (*v < 1i64 << (bits.min(63) - 1)));
    }
    let t = TemporalArray::new_timestamp(p.into_array(), unit, tz.clone());
    let d = Array::from(t.clone()).dtype().clone();
    let Ok(TemporalParts { days, seconds, subseconds }) = split_temporal(t) else {
        return check(false, "timestamps do not split");
    };
    reach(1);
    match DateTimePartsArray::try_new(d.clone(), days, seconds, subseconds) {
        Ok(x) => {
            let x = x.into_array();
            check(x.dtype() == &d, "dtype differs from the model");
            check_valid(&x, &m);
            match ts_decode(x) {
                Ok((v, ok, dd)) => {
                    check(dd == d, "decoded dtype differs from the model");
                    check(v.len() == m.len(), "decoded length differs from the model");
                    for i in 0..m.len() {
                        check(ok[i] == m.valid[i], "decoded validity differs from the model");
                        check(!m.valid[i] | (v[i] == m.vals[i]), "decoded timestamp differs from the model");
                    }
                }
                Err(_) => check(false, "decoding returned an error"),
            }
        }
        Err(_) => check(false, "the encoder's parts make no array"),
    }
}

fn opts<T: AsRef<[u8]> + Copy>(m: &[T], valid: &[bool]) -> Vec<Option<Vec<u8>>> {
    (0..m.len()).map(|i| valid[i].then(|| m[i].as_ref().to_vec())).collect()
}
impl<const U: bool> AsRef<[u8]> for Txt<U> {
    fn as_ref(&self) -> &[u8] {
        self.bytes()
    }
}
/// strings (a = 0) or bytes (a = 1), + 2 * route; b = length, c = validity mode
/// routes: 0 offsets built from rows, 1 views built from rows, 2 offsets to views, 3 offsets to views to offsets by rows,
/// 4 dictionary of an offset array, 5 dictionary of a view array, 6 symbol table of an offset array, 7 symbol table of a view array (chosen words);
/// 8-11 the same with 8 and 9 the symbol tables (trained on fixed text), up to three
/// bytes between 'a' and 'd', 10 and 11 the dictionaries, any bytes
#[no_mangle]
pub extern "C" fn h_text(a: u64, b: u64, c: u64) {
    if a % 2 == 0 {
        text::<true>(a / 2, b as usize, c)
    } else {
        text::<false>(a / 2, b as usize, c)
    }
}
fn text<const U: bool>(route: u64, n: usize, mode: u64) {
    let vals: Vec<Txt<U>> = if route == 8 || route == 9 {
        let rows: Vec<Txt<U>> = (0..n).map(|i| Txt::of_len(if i == 0 { choose(4) } else { 1 })).collect();
        for r in &rows {
            for x in r.bytes() {
                assume((*x >= b'a') & (*x <= b'd'));
            }
        }
        rows
    } else if route >= 10 {
        Txt::many(n)
    } else if route >= 4 {
        // rows of chosen words: the tables of the encoders are looked up by concrete bytes
        let words: [&[u8]; 4] = [b"ab", b"", b"abababababcab", b"b\x7fz"];
        (0..n).map(|_| Txt::of(words[choose(4)])).collect()
    } else {
        Txt::many(n)
    };
    let valid: Vec<bool> = match mode {
        0 | 1 => vec![true; n],
        2 => vec![false; n],
        _ => (0..n).map(|_| choose(2) == 1).collect(),
    };
    let dtype = Txt::<U>::dtype(nullability(mode != 0));
    let m = Ref::new(vals, valid, mode != 0);
    let rows = opts(&m.vals, &m.valid);
    let offsets = || VarBinArray::from_iter(rows.clone(), dtype.clone());
    let views = || VarBinViewArray::from_iter(rows.clone(), dtype.clone());
    let x = match route {
        0 => offsets().into_array(),
        1 => views().into_array(),
        2 | 3 => {
            let v = Txt::<U>::make(m.vals.clone(), if mode == 0 { Validity::NonNullable } else { Validity::from(m.valid.clone()) });
            let v = v.into_varbinview().unwrap();
            if route == 2 {
                v.into_array()
            } else {
                use vortex::accessor::ArrayAccessor;
                let rows: Vec<Option<Vec<u8>>> = v.with_iterator(|it| it.map(|r| r.map(|b| b.to_vec())).collect()).unwrap();
                check(rows.len() == n, "the rows of a view array are more or fewer than its length");
                VarBinArray::from_iter(rows, dtype.clone()).into_array()
            }
        }
        4 | 5 | 10 | 11 => {
            let (codes, vals) = if route % 2 == 0 {
                let (c, v) = dict_encode_varbin(&offsets());
                (c, v.into_array())
            } else {
                let (c, v) = dict_encode_varbinview(&views());
                (c, v.into_array())
            };
            match DictArray::try_new(codes.into_array(), vals) {
                Ok(x) => x.into_array(),
                Err(_) => return check(false, "the encoder's parts make no array"),
            }
        }
        _ => {
            let src = if route % 2 == 0 { offsets().into_array() } else { views().into_array() };
            // symbolic bytes meet a table trained on other text
            let text: [&[u8]; 4] = [b"abababababab", b"cabcabzzcab", b"\0\0\0\0", b"  zz"];
            let train = if route >= 8 { VarBinArray::from_iter(text.map(Some), dtype.clone()).into_array() } else { src.clone() };
            let Ok(x) = fsst_train_compressor(&train).and_then(|t| fsst_compress(&src, &t)) else {
                return check(false, "the array does not encode");
            };
            x.into_array()
        }
    };
    reach(1);
    check_all(&x, &m);
}
