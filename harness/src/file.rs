//! Files and expressions: what is read back under projections, batch sizes and row filters.
use std::pin::pin;
use std::sync::Arc;

use futures_util::StreamExt;
use vortex::array::{BoolArray, ChunkedArray, PrimitiveArray, StructArray};
use vortex::compute::slice;
use vortex::validity::Validity;
use vortex::variants::StructArrayTrait;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::field::Field;
use vortex_dtype::DType;
use vortex_expr::{BinaryExpr, Column, Identity, Literal, Operator, Select, VortexExpr};
use vortex_sampling_compressor::ALL_COMPRESSORS_CONTEXT;
use vortex_scalar::Scalar;
use vortex_serde::layouts::{LayoutContext, LayoutDeserializer, LayoutReaderBuilder, LayoutWriter, Projection, RowFilter};

use crate::arr::*;
use crate::by_elt;
use crate::enc::*;
use crate::h::*;
use crate::io::*;
use crate::ops2::{assume_ordinary, holds, OPS};

type Expr = Arc<dyn VortexExpr>;
/// Three columns: x and z of the type under test, y boolean.
struct Tab<T> {
    x: Ref<T>,
    y: Ref<bool>,
    z: Ref<T>,
}
const NAMES: [&str; 3] = ["x", "y", "z"];
fn table<T: Enc>(enc: u64, yenc: u64, n: usize, mode: u64, ymode: u64) -> (Array, Tab<T>) {
    let (x, mx) = build::<T>(enc, n, mode);
    let (y, my) = build::<bool>(yenc, n, ymode);
    let (z, mz) = sym_arr::<T>(n, 0);
    let s = StructArray::try_new(NAMES.map(|n| n.into()).into(), vec![x, y, z], n, Validity::NonNullable).unwrap();
    (s.into_array(), Tab { x: mx, y: my, z: mz })
}
impl<T: Elt> Tab<T> {
    fn len(&self) -> usize {
        self.x.len()
    }
    fn take(&self, ix: &[usize]) -> Self {
        Tab { x: self.x.take(ix), y: self.y.take(ix), z: self.z.take(ix) }
    }
    fn check_column(&self, k: usize, a: &Array) {
        match k {
            0 => check_all(a, &self.x),
            1 => check_all(a, &self.y),
            _ => check_all(a, &self.z),
        }
    }
    /// a table with the named columns, in this order
    fn check(&self, a: &Array, cols: &[usize]) {
        check(a.len() == self.len(), "the table has another number of rows");
        let DType::Struct(d, _) = a.dtype() else {
            return check(false, "the table is no struct");
        };
        check(d.names().len() == cols.len(), "the table has another number of columns");
        for (i, k) in cols.iter().enumerate() {
            check(&*d.names()[i] == NAMES[*k], "a column has another name");
            match a.with_dyn(|s| s.as_struct_array().and_then(|s| s.field(i))) {
                Some(f) => self.check_column(*k, &f),
                None => check(false, "a column is missing"),
            }
        }
    }
}
fn col(k: usize, by_index: bool) -> Expr {
    Arc::new(Column::new(field(k, by_index)))
}
fn field(k: usize, by_index: bool) -> Field {
    if by_index {
        Field::Index(k)
    } else {
        Field::Name(NAMES[k].into())
    }
}
fn lit(s: Scalar) -> Expr {
    Arc::new(Literal::new(s))
}
fn bin(l: Expr, op: Operator, r: Expr) -> Expr {
    Arc::new(BinaryExpr::new(l, op, r))
}
fn op(k: usize) -> Operator {
    match OPS[k] {
        vortex::compute::Operator::Eq => Operator::Eq,
        vortex::compute::Operator::NotEq => Operator::NotEq,
        vortex::compute::Operator::Gt => Operator::Gt,
        vortex::compute::Operator::Gte => Operator::Gte,
        vortex::compute::Operator::Lt => Operator::Lt,
        vortex::compute::Operator::Lte => Operator::Lte,
    }
}
pub const KINDS: usize = 16;
/// An expression, and for each row its value and whether there is one (null operands make a null)
fn expression<T: Elt>(kind: usize, k: usize, by_index: bool, t: &Tab<T>) -> (Expr, Vec<bool>, Vec<bool>) {
    let n = t.len();
    let v = T::any();
    assume(v.ordinary());
    let v2 = T::any();
    assume(v2.ordinary());
    let (x, y, z) = (col(0, by_index), col(1, by_index), col(2, by_index));
    let l = lit(v.scalar(nullability(false)));
    let c = |f: &dyn Fn(usize) -> bool| -> Vec<bool> { (0..n).map(f).collect() };
    let xl = c(&|i| holds(OPS[k], t.x.vals[i], v));
    let zl = c(&|i| holds(OPS[k], t.z.vals[i], v));
    let zl2 = c(&|i| holds(OPS[5 - k], t.z.vals[i], v2));
    let xz = c(&|i| holds(OPS[k], t.x.vals[i], t.z.vals[i]));
    let all = vec![true; n];
    let (xv, yv, y0) = (t.x.valid.clone(), t.y.valid.clone(), t.y.vals.clone());
    let both = |a: &[bool], b: &[bool]| -> Vec<bool> { (0..n).map(|i| a[i] & b[i]).collect() };
    let either = |a: &[bool], b: &[bool]| -> Vec<bool> { (0..n).map(|i| a[i] | b[i]).collect() };
    match kind {
        0 => (bin(x, op(k), l), xl, xv),
        1 => (bin(l, op(k), x), c(&|i| holds(OPS[k], v, t.x.vals[i])), xv),
        2 => (bin(bin(x, op(k), l), Operator::And, y), both(&xl, &y0), both(&xv, &yv)),
        3 => (bin(y, Operator::And, bin(x, op(k), l)), both(&xl, &y0), both(&xv, &yv)),
        4 => (bin(bin(x, op(k), l), Operator::Or, y), either(&xl, &y0), both(&xv, &yv)),
        5 => (bin(x, op(k), z), xz, xv),
        6 => (y, y0, yv),
        7 => (bin(x, op(k), lit(Scalar::null(T::dtype(nullability(true))))), xl, vec![false; n]),
        8 => {
            // (z op l and y) and (x op z)
            let e = bin(bin(bin(z.clone(), op(k), l), Operator::And, y), Operator::And, bin(x, op(k), z));
            (e, both(&both(&zl, &y0), &xz), both(&xv, &yv))
        }
        9 => {
            // z op l and (z op' l2 or y)
            let e = bin(bin(z.clone(), op(k), l), Operator::And, bin(bin(z, op(5 - k), lit(v2.scalar(nullability(true)))), Operator::Or, y));
            (e, both(&zl, &either(&zl2, &y0)), yv)
        }
        10 => (bin(z, op(k), l), zl, all),
        11 => (bin(bin(y.clone(), Operator::Eq, bin(z, op(k), l)), Operator::Or, y), c(&|i| (y0[i] == zl[i]) | y0[i]), yv),
        12 => (bin(y, Operator::And, bin(z, op(k), l)), both(&y0, &zl), yv),
        13 => (bin(l, op(k).swap(), x), xl, xv),
        14 => match op(k).inverse() {
            Some(o) => (bin(x, o, l), xl.iter().map(|b| !*b).collect(), xv),
            None => {
                check(false, "a comparison has no inverse");
                unreachable!()
            }
        },
        _ => {
            // a literal next to a comparison
            let b = choose(2) == 1;
            (bin(lit(Scalar::bool(b, nullability(false))), Operator::And, bin(x, op(k), l)), c(&|i| b & xl[i]), xv)
        }
    }
}
fn boxed(t: &Array, how: usize, n: usize) -> Array {
    match how {
        0 => t.clone(),
        _ => {
            let k = choose_row(0, n);
            ChunkedArray::try_new(vec![slice(t, 0, k).unwrap(), slice(t, k, n).unwrap()], t.dtype().clone()).unwrap().into_array()
        }
    }
}

/// Expressions over a table: a = type + 16 * (encoding of x + 32 * encoding of y), b = rows + 16 * kind + 256 * (columns by index) + 512 * (1: a chunked table) + 1024 * (1: as a row filter),
/// c = validity mode of x + 4 * validity mode of y + 16 * (0: any operator, or 1 + one operator)
#[no_mangle]
pub extern "C" fn h_expr(a: u64, b: u64, c: u64) {
    let n = (b % 16) as usize;
    by_elt!(a % 16, |T| {
        let (tab, m) = table::<T>(a / 16 % 32, a / 512, n, c % 4, c / 4 % 4);
        assume_ordinary(&m.x);
        assume_ordinary(&m.z);
        let tab = boxed(&tab, (b / 512 % 2) as usize, n);
        let (e, vals, valid) = expression((b / 16 % 16) as usize, if c < 16 { choose(6) } else { (c / 16 - 1) as usize }, b / 256 % 2 == 1, &m);
        if b / 1024 == 1 {
            match RowFilter::new(e).evaluate(&tab) {
                Ok(r) => {
                    let keep = (0..n).map(|i| vals[i] & valid[i]).collect();
                    check_all(&r, &Ref::new(keep, vec![true; n], false))
                }
                Err(_) => check(false, "evaluating the row filter returned an error"),
            }
        } else {
            match e.evaluate(&tab) {
                Ok(r) => {
                    let kind = b / 16 % 16;
                    check_all(&r, &Ref::new(vals, valid, kind != 6 || c / 4 % 4 > 0))
                }
                Err(_) => check(false, "evaluating the expression returned an error"),
            }
        }
    })
}
/// Choosing columns: a, c as in h_expr, b = rows + 16 * kind + 256 * (columns by index) + 512 * (1: a chunked table)
#[no_mangle]
pub extern "C" fn h_select(a: u64, b: u64, c: u64) {
    let n = (b % 16) as usize;
    let ix = b / 256 % 2 == 1;
    by_elt!(a % 16, |T| {
        let (tab, m) = table::<T>(a / 16 % 32, a / 512, n, c % 4, c / 4);
        let tab = boxed(&tab, (b / 512 % 2) as usize, n);
        let f = |k: &[usize]| -> Vec<Field> { k.iter().map(|k| field(*k, ix)).collect() };
        let (e, cols): (Expr, Vec<usize>) = match b / 16 % 16 {
            0 => (Arc::new(Identity), vec![0, 1, 2]),
            1 => (Arc::new(Select::include(f(&[2, 0]))), vec![2, 0]),
            2 => (Arc::new(Select::include(f(&[1]))), vec![1]),
            3 => (Arc::new(Select::exclude(f(&[1]))), vec![0, 2]),
            4 => (Arc::new(Select::exclude(f(&[2, 0]))), vec![1]),
            _ => (Arc::new(Select::exclude(vec![])), vec![0, 1, 2]),
        };
        match e.evaluate(&tab) {
            Ok(r) => m.check(&r, &cols),
            Err(_) => check(false, "choosing columns returned an error"),
        }
        for k in 0..if b / 16 % 16 == 0 { 3 } else { 0 } {
            match col(k, ix).evaluate(&tab) {
                Ok(r) => m.check_column(k, &r),
                Err(_) => check(false, "reading a column returned an error"),
            }
        }
    })
}
const PROJ: [&[usize]; 6] = [&[0, 1, 2], &[0], &[2, 0], &[1], &[1, 2], &[2, 1, 0]];
/// A file written and read: a = type + 16 * (encoding of x + 32 * encoding of y), b = rows + 16 * batch size + 256 * parts + 1024 * late deliveries + 4096 * (1 + kind of row filter),
/// c = validity mode of x + 4 * validity mode of y + 16 * projection + 128 * (columns by index)
#[no_mangle]
pub extern "C" fn h_file(a: u64, b: u64, c: u64) {
    let n = (b % 16) as usize;
    let ix = c / 128 % 2 == 1;
    by_elt!(a % 16, |T| {
        let (tab, m) = table::<T>(a / 16 % 32, a / 512, n, c % 4, c / 4 % 4);
        let k = if b / 256 % 4 > 0 { choose_row(0, n) } else { 0 };
        let late = b / 1024 % 4;
        let bytes = run(async {
            let w = LayoutWriter::new(Vec::<u8>::new());
            let w = match b / 256 % 4 {
                0 => w.write_array_columns(tab.clone()).await?,
                1 => {
                    let parts = vec![slice(&tab, 0, k)?, slice(&tab, k, n)?];
                    w.write_array_columns(ChunkedArray::try_new(parts, tab.dtype().clone())?.into_array()).await?
                }
                2 => w.write_array_columns(slice(&tab, 0, k)?).await?.write_array_columns(slice(&tab, k, n)?).await?,
                _ => {
                    // columns cut differently
                    let cut = |i: usize, k: usize| -> vortex_error::VortexResult<Array> {
                        let f = tab.with_dyn(|s| s.as_struct_array().and_then(|s| s.field(i))).unwrap();
                        Ok(ChunkedArray::try_new(vec![slice(&f, 0, k)?, slice(&f, k, n)?], f.dtype().clone())?.into_array())
                    };
                    let f = |i: usize| tab.with_dyn(|s| s.as_struct_array().and_then(|s| s.field(i))).unwrap();
                    let s = StructArray::try_new(NAMES.map(|n| n.into()).into(), vec![cut(0, k)?, f(1), cut(2, n - k)?], n, Validity::NonNullable)?;
                    w.write_array_columns(s.into_array()).await?
                }
            };
            w.finalize().await
        });
        let bytes: Vec<u8> = match bytes {
            Ok(b) => b,
            Err(_) => return check(false, "writing the file returned an error"),
        };
        reach(1);
        let cols = PROJ[(c / 16 % 8) as usize];
        let mut r = LayoutReaderBuilder::new(SlowFile(Arc::new(bytes)), LayoutDeserializer::new(ALL_COMPRESSORS_CONTEXT.clone(), LayoutContext::default().into()));
        if c / 16 % 8 > 0 {
            r = r.with_projection(Projection::Flat(cols.iter().map(|k| field(*k, ix)).collect()));
        }
        let batch = (b / 16 % 16) as usize;
        if batch > 0 {
            r = r.with_batch_size(batch);
        }
        let mut want = m;
        if b / 4096 > 0 {
            assume_ordinary(&want.x);
            assume_ordinary(&want.z);
            let (e, vals, valid) = expression((b / 4096 - 1) as usize, 4, ix, &want);
            r = r.with_row_filter(RowFilter::new(e));
            let keep: Vec<usize> = (0..n).filter(|i| vals[*i] & valid[*i]).collect();
            want = want.take(&keep);
        }
        let n = want.len();
        set_late(late as usize);
        run(async {
            let s = match r.build().await {
                Ok(s) => s,
                Err(_) => return check(false, "opening the file returned an error"),
            };
            let mut s = pin!(s);
            let mut at = 0;
            while let Some(p) = s.next().await {
                let Ok(p) = p else {
                    return check(false, "reading the file returned an error");
                };
                check(batch == 0 || p.len() <= batch, "a batch is too long");
                check(p.len() <= n - at, "the file has more rows than were asked for");
                if p.len() > n - at {
                    return;
                }
                let rows: Vec<usize> = (at..at + p.len()).collect();
                want.take(&rows).check(&p, cols);
                at += p.len();
            }
            check(at == n, "rows are missing");
        });
        set_late(0);
    })
}
