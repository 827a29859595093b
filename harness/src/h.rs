//! Harness-side interface to the symbolic executor.
extern "C" {
    fn vsx_sym(width: u32) -> u64;
    fn vsx_sym_fill(p: *mut u8, elem_bits: u32, count: u64);
    fn vsx_choose(n: u64) -> u64;
    fn vsx_assume(c: bool);
    fn vsx_assert(c: bool, m: *const u8, n: u64);
    fn vsx_reach(id: u64);
    fn vsx_out(v: u64);
    fn vsx_allow_panic(f: bool);
    fn vsx_is_sym() -> u32;
    fn vsx_concretize(v: u64) -> u64;
}
pub fn sym_bits(w: u32) -> u64 {
    unsafe { vsx_sym(w) }
}
pub fn choose(n: usize) -> usize {
    unsafe { vsx_choose(n as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { vsx_assume(c) }
}
pub fn check(c: bool, m: &'static str) {
    unsafe { vsx_assert(c, m.as_ptr(), m.len() as u64) }
}
pub fn reach(id: u64) {
    unsafe { vsx_reach(id) }
}
pub fn out(v: u64) {
    unsafe { vsx_out(v) }
}
pub fn allow_panic(f: bool) {
    unsafe { vsx_allow_panic(f) }
}
pub fn is_sym() -> bool {
    unsafe { vsx_is_sym() != 0 }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { vsx_concretize(v) }
}
pub fn sym_bool() -> bool {
    unsafe { vsx_sym(1) & 1 != 0 }
}

pub trait Sym: Copy + Default {
    const BITS: u32;
    fn bits(self) -> u64;
    fn fresh() -> Self;
    fn of_bits(b: u64) -> Self;
    /// the value with these bits
    fn raw(b: u64) -> Self;
}
macro_rules! sym {
    ($($t:ty, $b:expr;)*) => {$(
        impl Sym for $t {
            const BITS: u32 = $b;
            fn bits(self) -> u64 { self as u64 }
            fn fresh() -> Self { sym_bits($b) as $t }
            fn of_bits(b: u64) -> Self { b as $t }
            fn raw(b: u64) -> Self { b as $t }
        }
    )*};
}
sym! { u8, 8; i8, 8; u16, 16; i16, 16; u32, 32; i32, 32; u64, 64; i64, 64; usize, 64; }
impl Sym for f32 {
    const BITS: u32 = 32;
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn fresh() -> Self {
        f32::from_bits(sym_bits(32) as u32)
    }
    fn of_bits(b: u64) -> Self {
        (b % 1000) as f32 * 0.25
    }
    fn raw(b: u64) -> Self {
        f32::from_bits(b as u32)
    }
}
impl Sym for f64 {
    const BITS: u32 = 64;
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn fresh() -> Self {
        f64::from_bits(sym_bits(64))
    }
    fn of_bits(b: u64) -> Self {
        (b % 1000) as f64 * 0.25
    }
    fn raw(b: u64) -> Self {
        f64::from_bits(b)
    }
}
pub fn sym<T: Sym>() -> T {
    T::fresh()
}
/// Up to this length every element of an array is symbolic, and every row is checked one by one.
pub const SMALL: usize = 24;
/// Rows of a longer array that are symbolic and checked one by one: the ends, and the rows around
/// the sizes the code treats specially (words of a bitmap, lanes and blocks of the packed encodings).
pub fn rows(n: usize) -> Vec<usize> {
    if n <= SMALL {
        return (0..n).collect();
    }
    let mut v = vec![];
    for c in [0usize, 64, 128, 1024, 2048, 3072, n] {
        for p in [c.wrapping_sub(2), c.wrapping_sub(1), c, c + 1] {
            if p < n && !v.contains(&p) {
                v.push(p);
            }
        }
    }
    v.sort();
    v
}
/// A row in `lo..=hi`, out of all of them or (long arrays) out of those near the special rows.
pub fn choose_row(lo: usize, hi: usize) -> usize {
    if hi - lo <= SMALL {
        return lo + choose(hi - lo + 1);
    }
    let mut v = vec![];
    for p in [lo, lo + 1, 63, 64, 65, 1000, 1023, 1024, 1025, 2047, 2048, 2049, hi - 1, hi] {
        if lo <= p && p <= hi && !v.contains(&p) {
            v.push(p);
        }
    }
    v[choose(v.len())]
}
pub fn background(i: usize) -> u64 {
    ((i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 7) % 13
}
pub fn sym_vec<T: Sym>(n: usize) -> Vec<T> {
    if n > SMALL {
        let mut v: Vec<T> = (0..n).map(|i| T::of_bits(background(i))).collect();
        for i in rows(n) {
            v[i] = T::fresh();
        }
        return v;
    }
    let mut v = vec![T::default(); n];
    unsafe { vsx_sym_fill(v.as_mut_ptr() as *mut u8, T::BITS, n as u64) };
    v
}
pub fn sym_bools(n: usize) -> Vec<bool> {
    if n > SMALL {
        let mut v: Vec<bool> = (0..n).map(|i| background(i) & 5 == 1).collect();
        for i in [64, 1024] {
            if i < n {
                v[i] = sym_bool();
            }
        }
        return v;
    }
    let mut v = vec![false; n];
    unsafe { vsx_sym_fill(v.as_mut_ptr() as *mut u8, 1, n as u64) };
    v
}
