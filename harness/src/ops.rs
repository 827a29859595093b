//! Operations on arrays in every encoding against the reference contents.
//! a = element type + 16 * encoding, b = length, c = validity mode + 4 * variant
use std::cmp::Ordering;

use vortex::array::{BoolArray, PrimitiveArray};
use vortex::compute::unary::scalar_at;
use vortex::compute::{filter, search_sorted, search_sorted_many, search_sorted_u64, search_sorted_u64_many, slice, take, SearchResult, SearchSortedSide};
use vortex::{ArrayDType, IntoArray};
use vortex_scalar::Scalar;

use crate::arr::*;
use crate::{by_elt, by_int};
use crate::enc::*;
use crate::h::*;

fn cfg(a: u64, c: u64) -> (u64, u64, u64, u64) {
    (a % 16, a / 16, c % 4, c / 4)
}

/// Decoding, element access and validity agree with the contents.
#[no_mangle]
pub extern "C" fn h_canon(a: u64, b: u64, c: u64) {
    let (t, e, mode, _) = cfg(a, c);
    by_elt!(t, |T| {
        let (arr, m) = build::<T>(e, b as usize, mode);
        reach(1);
        check_all(&arr, &m)
    })
}

/// Slicing (twice) selects exactly the rows asked for; a range outside the array is refused.
#[no_mangle]
pub extern "C" fn h_slice(a: u64, b: u64, c: u64) {
    let (t, e, mode, var) = cfg(a, c);
    let n = b as usize;
    by_elt!(t, |T| {
        let (arr, m) = build::<T>(e, n, mode);
        let s = choose_row(0, n);
        let x = choose_row(s, n);
        let one = match slice(&arr, s, x) {
            Ok(r) => r,
            Err(_) => return check(false, "slice in range returned an error"),
        };
        let m1 = m.slice(s, x);
        check_all(&one, &m1);
        if var == 1 {
            let k = x - s;
            let s2 = choose_row(0, k);
            let x2 = choose_row(s2, k);
            match slice(&one, s2, x2) {
                Ok(r) => check_all(&r, &m1.slice(s2, x2)),
                Err(_) => check(false, "slice of a slice in range returned an error"),
            }
        }
        check(slice(&arr, 0, n + 1).is_err(), "slice past the end did not return an error");
        check(slice(&arr, n + 1, n + 1).is_err(), "slice starting past the end did not return an error");
        if n > 0 {
            check(slice(&arr, n, n - 1).is_err(), "slice with start after stop did not return an error");
        }
    })
}

/// Taking gathers exactly the rows asked for, in order, with repetition.
#[no_mangle]
pub extern "C" fn h_take(a: u64, b: u64, c: u64) {
    let (t, e, mode, var) = cfg(a, c);
    let n = b as usize;
    // the number of indices taken
    let k = [2, 1, 3, 0][var as usize % 4];
    let ixs: Vec<usize> = (0..k).map(|_| choose_row(0, n.max(1) - 1)).collect();
    if n == 0 && k > 0 {
        return check(true, "nothing to take");
    }
    by_elt!(t, |T| {
        let (arr, m) = build::<T>(e, n, mode);
        let ix = if var < 4 {
            PrimitiveArray::from(ixs.iter().map(|i| *i as u64).collect::<Vec<_>>()).into_array()
        } else {
            PrimitiveArray::from(ixs.iter().map(|i| *i as u8).collect::<Vec<_>>()).into_array()
        };
        match take(&arr, &ix) {
            Ok(r) => check_all(&r, &m.take(&ixs)),
            Err(_) => check(false, "take returned an error"),
        }
    })
}

/// Taking many rows at once, in one block or across a block boundary; from a small array, its rows over and over.
#[no_mangle]
pub extern "C" fn h_take_many(a: u64, b: u64, c: u64) {
    let (t, e, mode, var) = cfg(a, c);
    let n = b as usize;
    let k = if var == 0 { 130 } else { 70 };
    let from = if n <= SMALL { choose_row(0, n - 1) } else { [0, 1, n - k - 1, n - k][choose(4)] };
    let ixs: Vec<usize> = match choose(3) {
        d if n <= SMALL => (0..k).map(|i| (from + (d + 1) * i) % n).collect(),
        0 => (from..from + k).collect(),
        1 => (from..from + k).rev().collect(),
        // two blocks by turns
        _ => (0..k).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
    };
    by_elt!(t, |T| {
        let (arr, m) = build::<T>(e, n, mode);
        let ix = PrimitiveArray::from(ixs.iter().map(|i| *i as u32).collect::<Vec<_>>()).into_array();
        match take(&arr, &ix) {
            Ok(r) => {
                check_canon(&r, &m.take(&ixs));
                check_valid(&r, &m.take(&ixs));
            }
            Err(_) => check(false, "take returned an error"),
        }
    })
}

/// Filtering keeps exactly the rows whose predicate is true, in order.
#[no_mangle]
pub extern "C" fn h_filter(a: u64, b: u64, c: u64) {
    let (t, e, mode, _) = cfg(a, c);
    let n = b as usize;
    by_elt!(t, |T| {
        let (arr, m) = build::<T>(e, n, mode);
        let keep: Vec<bool> = if n <= SMALL {
            (0..n).map(|_| choose(2) == 1).collect()
        } else {
            // a run, its complement, or every third row
            let (s, k) = (choose_row(0, n), choose(3));
            (0..n)
                .map(|i| match k {
                    0 => i >= s,
                    1 => i < s,
                    _ => i % 3 == s % 3,
                })
                .collect()
        };
        let ixs: Vec<usize> = (0..n).filter(|i| keep[*i]).collect();
        match filter(&arr, BoolArray::from(keep).into_array()) {
            Ok(r) => check_all(&r, &m.take(&ixs)),
            Err(_) => check(false, "filter returned an error"),
        }
        let short = BoolArray::from(vec![true; n + 1]).into_array();
        check(
            filter(&arr, &short).is_err(),
            "filter with a predicate of another length did not return an error",
        );
    })
}

fn assume_sorted<T: Elt>(m: &Ref<T>) {
    let mut ok = true;
    for i in 1..m.len() {
        // nulls last
        ok &= m.valid[i - 1] | !m.valid[i];
        ok &= !m.valid[i] | m.vals[i - 1].leq(m.vals[i]);
    }
    assume(ok);
}

/// Searching a sorted array returns the first (left) or one past the last (right) position.
#[no_mangle]
pub extern "C" fn h_search(a: u64, b: u64, c: u64) {
    let (t, e, mode, _) = cfg(a, c);
    let n = b as usize;
    by_elt!(t, |T| {
        let (arr, m) = build::<T>(e, n, mode);
        search_in(&arr, &m)
    })
}
pub fn search_in<T: Elt>(arr: &vortex::Array, m: &Ref<T>) {
    let n = m.len();
    assume_sorted(m);
    let v = T::any();
    let side = if choose(2) == 0 { SearchSortedSide::Left } else { SearchSortedSide::Right };
    let left = (0..n).map(|i| (m.valid[i] & m.vals[i].less(v)) as usize).sum::<usize>();
    let right = (0..n).map(|i| (m.valid[i] & m.vals[i].leq(v)) as usize).sum::<usize>();
    let found = left != right;
    match search_sorted(arr, v.scalar(nullability(false)), side) {
        Ok(r) => {
            let want = match side {
                SearchSortedSide::Left => left,
                SearchSortedSide::Right => right,
            };
            check(r.to_index() == want, "search_sorted position differs from the model");
            check(matches!(r, SearchResult::Found(_)) == found, "search_sorted presence differs from the model");
        }
        Err(_) => check(false, "search_sorted returned an error"),
    }
}

/// The same through the other entry points: several values at once, an unsigned value of any size, several of those.
#[no_mangle]
pub extern "C" fn h_search_via(a: u64, b: u64, c: u64) {
    let (t, e, mode, var) = cfg(a, c);
    let n = b as usize;
    by_int!(t, |T| {
        let (arr, m) = build::<T>(e, n, mode);
        assume_sorted(&m);
        let sides = [SearchSortedSide::Left, SearchSortedSide::Right];
        let (got, left, right) = if var == 0 {
            let (v, w) = (T::any(), T::any());
            let count = |f: &dyn Fn(T, T) -> bool, v: T| (0..n).map(|i| (m.valid[i] & f(m.vals[i], v)) as usize).sum::<usize>();
            let (less, leq) = (|x: T, y: T| x < y, |x: T, y: T| x <= y);
            (
                search_sorted_many(&arr, &[v.scalar(nullability(false)), w.scalar(nullability(false))], &sides),
                [count(&less, v), count(&less, w)],
                [count(&leq, v), count(&leq, w)],
            )
        } else {
            let (v, w) = (sym::<u64>(), sym::<u64>());
            let count = |f: &dyn Fn(i128, i128) -> bool, v: u64| (0..n).map(|i| (m.valid[i] & f(m.vals[i] as i128, v as i128)) as usize).sum::<usize>();
            let (less, leq) = (|x: i128, y: i128| x < y, |x: i128, y: i128| x <= y);
            let r = if var == 1 {
                search_sorted_u64(&arr, v, sides[0]).and_then(|x| Ok(vec![x, search_sorted_u64(&arr, w, sides[1])?]))
            } else {
                search_sorted_u64_many(&arr, &[v, w], &sides)
            };
            (r, [count(&less, v), count(&less, w)], [count(&leq, v), count(&leq, w)])
        };
        match got {
            Ok(r) => {
                check(r.len() == 2, "a search of two values did not return two results");
                check(r[0].to_index() == left[0], "position from the left differs from the model");
                check(r[1].to_index() == right[1], "position from the right differs from the model");
                for i in 0..2 {
                    check(matches!(r[i], SearchResult::Found(_)) == (left[i] != right[i]), "presence differs from the model");
                }
            }
            Err(_) => check(false, "the search returned an error"),
        }
    })
}

/// Element access beyond the end is refused at any index.
#[no_mangle]
pub extern "C" fn h_oob(a: u64, b: u64, c: u64) {
    let (t, e, mode, _) = cfg(a, c);
    let n = b as usize;
    by_elt!(t, |T| {
        let (arr, _) = build::<T>(e, n, mode);
        let i = sym::<usize>();
        assume(i >= n);
        check(scalar_at(&arr, i).is_err(), "scalar_at past the end did not return an error");
        let j = sym::<usize>();
        assume(j > n);
        check(slice(&arr, choose(n + 1), j).is_err(), "slice past the end did not return an error");
    })
}

#[allow(dead_code)]
fn ord<T: Elt>(x: T, y: T) -> Ordering {
    x.order(y)
}
#[allow(dead_code)]
fn unused(s: Scalar, a: vortex::Array) -> usize {
    let _ = s;
    a.dtype();
    0
}
