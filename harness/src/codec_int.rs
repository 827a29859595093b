//! Integer codecs: frame-of-reference, zig-zag, bit-packing, delta.
use vortex::{ArrayDef, IntoArray};
use vortex_fastlanes::{for_compress, BitPackedArray, DeltaArray};
use vortex_zigzag::zigzag_encode;

use crate::arr::*;
use crate::h::*;
use crate::{by_int, by_uint};

/// frame of reference: a = type, b = length, c = validity mode
#[no_mangle]
pub extern "C" fn h_for(a: u64, b: u64, c: u64) {
    by_int!(a, |T| {
        let (p, m) = sym_prim::<T>(b as usize, c);
        match for_compress(&p) {
            Ok(e) => {
                reach(1);
                check_all(&e, &m)
            }
            // an all-null array has no minimum; the encoder may refuse it
            Err(_) => check(c >= 2 && !m.valid.iter().any(|v| *v), "encoder refused an array with values"),
        }
    })
}
/// zig-zag: a = signed type (4..=7), b = length, c = validity mode
#[no_mangle]
pub extern "C" fn h_zigzag(a: u64, b: u64, c: u64) {
    by_int!(a, |T| {
        let (p, m) = sym_prim::<T>(b as usize, c);
        let e = zigzag_encode(p).unwrap().into_array();
        check_all(&e, &m)
    })
}
/// bit-packing with patches: a = unsigned type + 4 * bit width, b = length, c = validity mode.
/// Values at `sym` positions spread over the lanes are symbolic, the rest are fixed.
#[no_mangle]
pub extern "C" fn h_bitpack(a: u64, b: u64, c: u64) {
    by_uint!(a % 4, |T| {
        let bw = (a / 4) as u8;
        let (p, m) = sym_prim::<T>(b as usize, c);
        let e = BitPackedArray::encode(&p.into_array(), bw).unwrap().into_array();
        reach(1);
        check_all(&e, &m)
    })
}
#[no_mangle]
pub extern "C" fn h_delta(a: u64, b: u64, c: u64) {
    by_uint!(a, |T| {
        let (p, m) = sym_prim::<T>(b as usize, c);
        let e = DeltaArray::try_from_primitive_array(&p).unwrap().into_array();
        check_all(&e, &m)
    })
}

/// searching what the frame-of-reference encoder wrote: a = type + 16 * shift, b = length, c = validity mode
#[no_mangle]
pub extern "C" fn h_for_search(a: u64, b: u64, c: u64) {
    by_int!(a % 16, |T| {
        let sh = a / 16;
        let vals: Vec<T> = sym_vec::<T>(b as usize).into_iter().map(|v| v >> sh << sh).collect();
        let (p, m) = prim_of::<T>(vals, c);
        match for_compress(&p) {
            Ok(e) => crate::ops::search_in(&e, &m),
            Err(_) => check(c >= 2 && !m.valid.iter().any(|v| *v), "encoder refused an array with values"),
        }
    })
}
