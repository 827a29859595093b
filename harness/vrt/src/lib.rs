//! Native side of the harness interface. The symbolic executor intercepts these functions by name;
//! in the replay binary they read the recorded input values instead.
use std::cell::RefCell;

pub struct Rt {
    pub inputs: Vec<(u32, u64)>,
    pub pos: usize,
    pub allow_panic: bool,
    pub outs: Vec<u64>,
    pub asserts: u64,
    pub verbose: bool,
}

thread_local! {
    pub static RT: RefCell<Rt> = const { RefCell::new(Rt { inputs: Vec::new(), pos: 0, allow_panic: false, outs: Vec::new(), asserts: 0, verbose: false }) };
}

fn next(width: u32) -> u64 {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        let p = r.pos;
        r.pos += 1;
        match r.inputs.get(p) {
            Some(&(w, v)) => {
                if w != width {
                    eprintln!("REPLAY-MISMATCH input {p} has width {w}, harness asks for {width}");
                    std::process::exit(3);
                }
                v
            }
            None => 0,
        }
    })
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn vsx_sym(width: u32) -> u64 {
    let v = next(width);
    if width >= 64 { v } else { v & ((1u64 << width) - 1) }
}
/// Fills `count` elements of `elem_bits` bits (8, 16, 32, 64; 1 means a byte holding 0 or 1).
///
/// # Safety
/// `p` must be valid for the written range.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn vsx_sym_fill(p: *mut u8, elem_bits: u32, count: u64) {
    for i in 0..count as usize {
        let v = next(elem_bits);
        match elem_bits {
            1 => *p.add(i) = (v & 1) as u8,
            8 => *p.add(i) = v as u8,
            16 => (p as *mut u16).add(i).write_unaligned(v as u16),
            32 => (p as *mut u32).add(i).write_unaligned(v as u32),
            _ => (p as *mut u64).add(i).write_unaligned(v),
        }
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vsx_choose(n: u64) -> u64 {
    let v = next(32);
    if v >= n {
        eprintln!("REPLAY-ASSUME choice {v} of {n}");
        std::process::exit(4);
    }
    v
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vsx_assume(c: bool) {
    if !c {
        eprintln!("REPLAY-ASSUME not satisfied");
        std::process::exit(4);
    }
}
/// # Safety
/// `m` and `n` describe a string.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn vsx_assert(c: bool, m: *const u8, n: u64) {
    RT.with(|r| r.borrow_mut().asserts += 1);
    if !c {
        let s = std::slice::from_raw_parts(m, n as usize);
        println!("ASSERT-FAILED {}", String::from_utf8_lossy(s));
        std::process::exit(1);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vsx_reach(_id: u64) {
    RT.with(|r| r.borrow_mut().asserts += 1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vsx_out(v: u64) {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        r.outs.push(v)
    });
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vsx_allow_panic(f: bool) {
    RT.with(|r| r.borrow_mut().allow_panic = f);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vsx_is_sym() -> u32 {
    0
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vsx_concretize(v: u64) -> u64 {
    v
}
