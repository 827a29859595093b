use crate::h::*;
use vortex::array::PrimitiveArray;
use vortex::IntoArray;
#[no_mangle]
pub extern "C" fn h_smoke(_a: u64, _b: u64, _c: u64) {
    let x: u32 = sym();
    let a = PrimitiveArray::from(vec![x, 2, 3]).into_array();
    let b = vortex::compute::slice(&a, 0, 2).unwrap();
    let s = vortex::compute::unary::scalar_at(&b, 0).unwrap();
    let v: u32 = (&s).try_into().unwrap();
    check(v == x, "slice then scalar_at");
    out(v as u64);
}
