//! Streams and files: what is written reads back, however it is cut, selected and delivered.
use std::cell::Cell;
use std::future::Future;
use std::io;
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

use bytes::BytesMut;
use futures_util::{StreamExt, TryStreamExt};
use vortex::array::ChunkedArray;
use vortex::stats::{ArrayStatistics, Stat};
use vortex::{Array, ArrayDType, IntoArray};
use vortex_sampling_compressor::ALL_COMPRESSORS_CONTEXT;
use vortex_serde::io::{VortexRead, VortexReadAt};
use vortex_serde::stream_reader::StreamArrayReader;
use vortex_serde::stream_writer::StreamArrayWriter;

use crate::arr::*;
use crate::by_elt;
use crate::enc::*;
use crate::h::*;
use crate::ops2::*;

fn noop() -> Waker {
    const T: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &T), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &T)) }
}
/// Polls until ready; a future that stays pending after every delivery has been made is stuck.
pub fn run<F: Future>(f: F) -> F::Output {
    let w = noop();
    let mut cx = Context::from_waker(&w);
    let mut f = pin!(f);
    for _ in 0..400 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
    check(false, "the operation never finishes");
    panic!("stuck")
}
/// Becomes ready at the second poll, if it is chosen to.
struct Later(Cell<bool>);
impl Future for Later {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0.replace(false) {
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    }
}
pub fn set_late(n: usize) {
    LATE.store(n, Relaxed);
}
static LATE: AtomicUsize = AtomicUsize::new(0);
/// Up to two deliveries are late.
fn later() -> Later {
    let late = LATE.load(Relaxed) > 0 && choose(2) == 1;
    if late {
        LATE.fetch_sub(1, Relaxed);
    }
    Later(Cell::new(late))
}
struct Slow(Vec<u8>, usize);
impl VortexRead for Slow {
    async fn read_into(&mut self, mut buffer: BytesMut) -> io::Result<BytesMut> {
        later().await;
        let n = buffer.len();
        if self.1 + n > self.0.len() {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        buffer.copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(buffer)
    }
}
#[derive(Clone)]
pub struct SlowFile(pub Arc<Vec<u8>>);
impl VortexReadAt for SlowFile {
    async fn read_at_into(&self, pos: u64, mut buffer: BytesMut) -> io::Result<BytesMut> {
        later().await;
        let (p, n) = (pos as usize, buffer.len());
        check(p <= self.0.len() && n <= self.0.len() - p, "a read outside the file");
        if p + n > self.0.len() {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        buffer.copy_from_slice(&self.0[p..p + n]);
        Ok(buffer)
    }
    async fn size(&self) -> u64 {
        self.0.len() as u64
    }
}

/// An array sent through the message stream: a = type + 16 * encoding, b = length, c = validity mode + 4 * (0 at once, 1 some deliveries late, 2 with statistics)
#[no_mangle]
pub extern "C" fn h_stream(a: u64, b: u64, c: u64) {
    by_elt!(a % 16, |T| {
        let (x, m) = build::<T>(a / 16, b as usize, c % 4);
        let enc = x.encoding().id();
        let d = x.dtype().clone();
        LATE.store((c / 4 == 1) as usize * 2, Relaxed);
        if a % 16 == 8 && [CONSTANT, SPARSE, CHUNKED_MIXED].contains(&(a / 16 % SLICED)) {
            // constants travel through a 64-bit float, which may set the quiet bit of a NaN
            for v in &m.vals {
                assume(!v.not_number());
            }
        }
        if c / 4 == 2 {
            assume_ordinary(&m);
            for s in STATS {
                let _ = x.statistics().compute(s);
            }
        }
        let chunks = ChunkedArray::try_from(&x).map(|c| c.nchunks()).unwrap_or(1);
        let bytes = run(async {
            let w = StreamArrayWriter::new(Vec::<u8>::new()).write_array(x.clone()).await?;
            vortex_error::VortexResult::Ok(w.into_inner())
        });
        let Ok(bytes) = bytes else {
            return check(false, "writing returned an error");
        };
        reach(1);
        run(async {
            let Ok(r) = StreamArrayReader::try_new(Slow(bytes, 0), ALL_COMPRESSORS_CONTEXT.clone()).await else {
                return check(false, "opening the stream returned an error");
            };
            let Ok(r) = r.load_dtype().await else {
                return check(false, "reading the type returned an error");
            };
            let mut s = pin!(r.into_array_stream());
            let mut parts = vec![];
            while let Some(p) = s.next().await {
                match p {
                    Ok(p) => parts.push(p),
                    Err(_) => return check(false, "reading an array returned an error"),
                }
            }
            check(parts.len() == chunks, "the stream has another number of arrays");
            let one = if ChunkedArray::try_from(&x).is_err() && parts.len() == 1 {
                check(parts[0].encoding().id() == enc, "the encoding changed");
                let p = parts.pop().unwrap();
                if c / 4 == 2 {
                    for s in STATS {
                        let (u, v) = (x.statistics().get(s), p.statistics().get(s));
                        check(u.is_some() == v.is_some(), "a statistic appeared or got lost");
                        if let (Some(u), Some(v)) = (u, v) {
                            check(u.value() == v.value() || ([Stat::RunCount, Stat::TrueCount, Stat::NullCount].contains(&s) && usize::try_from(&u).ok() == usize::try_from(&v).ok()), "a statistic changed");
                        }
                    }
                    check_claims(&|s| p.statistics().get(s), &m, false);
                }
                p
            } else {
                ChunkedArray::try_new(parts, d.clone()).unwrap().into_array()
            };
            check_all(&one, &m);
        });
        LATE.store(0, Relaxed);
    })
}

static CARRY: AtomicBool = AtomicBool::new(false);
/// Sends an array through the stream if a run is to work on arrays that were read back.
pub fn carry(x: Array, _ty: u64) -> Array {
    if !CARRY.load(Relaxed) {
        return x;
    }
    let r = run(async {
        let w = StreamArrayWriter::new(Vec::<u8>::new()).write_array(x.clone()).await?;
        let r = StreamArrayReader::try_new(Slow(w.into_inner(), 0), ALL_COMPRESSORS_CONTEXT.clone()).await?.load_dtype().await?;
        let parts: Vec<Array> = r.into_array_stream().try_collect().await?;
        if parts.len() == 1 {
            return Ok(parts[0].clone());
        }
        Ok(ChunkedArray::try_new(parts, x.dtype().clone())?.into_array())
    });
    let r: vortex_error::VortexResult<Array> = r;
    match r {
        Ok(r) => r,
        Err(_) => {
            check(false, "the stream returned an error");
            x
        }
    }
}
/// Another entry point over arrays that went through the stream: b = length + 4096 * entry point
#[no_mangle]
pub extern "C" fn h_carried(a: u64, b: u64, c: u64) {
    use crate::*;
    CARRY.store(true, Relaxed);
    let f = [
        ops::h_canon, ops::h_slice, ops::h_take, ops::h_take_many, ops::h_filter, ops::h_search, ops2::h_fill, ops2::h_stats, ops2::h_cmp, ops2::h_cast, ops2::h_sub, ops2::h_bool, ops2::h_stats_after,
        valid::h_nulls,
    ];
    f[(b / 4096) as usize](a, b % 4096, c);
    CARRY.store(false, Relaxed);
}
