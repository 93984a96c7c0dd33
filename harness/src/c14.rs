//! C14: fire-and-forget and metadata push.
//!
//! The machine is made through the hook, with a connection that keeps what it is given and
//! refuses any one frame. Bounded: up to 3 chunks.
use crate::gen::*;
use binate::connection::{ConnectionStatus, DuplexConnection, StreamIdProvider};
use binate::frame::Frame;
use binate::prelude::Payload;
use binate::verif::machine;
use binate::{Error, Flux, Mono, RSocket, Result};
use bytes::Bytes;
use std::sync::Arc;

type P = Option<&'static [u8]>;
const MAX: usize = 5;

#[derive(Clone, Copy)]
struct Sent {
    fnf: bool,
    stream: u32,
    follows: bool,
    meta: P,
    data: P,
    waits: bool,
}
const NOT: Sent = Sent { fnf: false, stream: 0, follows: false, meta: None, data: None, waits: false };
static mut SENT: [Sent; MAX] = [NOT; MAX];
static mut N: usize = 0;
/// The frame that is refused.
static mut REFUSED: usize = usize::MAX;
static mut ERROR: usize = 0;

fn address(e: &Error) -> usize {
    if std::mem::size_of::<Error>() != 8 {
        bytes::model::limit()
    }
    unsafe { *(e as *const Error as *const usize) }
}

fn keep(frame: &Frame, waits: bool) -> Result<()> {
    let still = |b: Option<&Bytes>| -> P {
        match b {
            Some(b) => Some(unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) }),
            None => None,
        }
    };
    unsafe {
        assert!(N < MAX, "more frames than chunks");
        SENT[N] = match frame {
            Frame::RequestFnf(f) => Sent {
                fnf: true,
                stream: f.stream_id(),
                follows: f.is_follows(),
                meta: still(f.metadata()),
                data: still(f.request_data()),
                waits,
            },
            Frame::MetadataPush(f) => Sent { meta: still(Some(f.metadata())), waits, ..NOT },
            _ => panic!("a frame of another type is sent"),
        };
        N += 1;
        if N - 1 == REFUSED {
            let e: Error = std::io::Error::from(std::io::ErrorKind::BrokenPipe).into();
            ERROR = address(&e);
            return Err(e);
        }
        Ok(())
    }
}

struct Link;
impl DuplexConnection for Link {
    fn send(&self, frame: Frame) -> Mono<Result<()>> {
        let r = keep(&frame, true);
        std::mem::forget(frame);
        Box::pin(std::future::ready(r))
    }
    fn send_and_forget(&self, frame: Frame) -> Result<()> {
        let r = keep(&frame, false);
        std::mem::forget(frame);
        r
    }
    fn send_stream(&self, _: Flux<Frame>) {
        bytes::model::limit()
    }
    fn receive(&self) -> Flux<Frame> {
        bytes::model::limit()
    }
    fn connect(&self) {
        panic!("opens the connection")
    }
    fn close(&self) {
        panic!("closes the connection")
    }
    fn connection_status(&self) -> Flux<ConnectionStatus> {
        bytes::model::limit()
    }
}

static mut USED: u32 = 0;
static mut ASKED: u32 = 0;
fn in_use(k: u32) -> bool {
    unsafe {
        ASKED += 1;
        k == USED
    }
}

fn socket(chunk: Option<usize>) -> impl RSocket {
    unsafe {
        USED = kani::any();
        kani::assume(USED <= 1);
        REFUSED = kani::any();
        dashmap::MEMBER = in_use;
        let now = std::mem::zeroed();
        machine(Arc::new(Link), StreamIdProvider::new_for_client(), chunk, now)
    }
}

fn part() -> P {
    if kani::any() {
        Some(raw(1 << 40))
    } else {
        None
    }
}
fn payload(m: P, d: P) -> Payload {
    crate::mk::payload(m, d)
}

fn take(p: P, n: usize) -> (P, P) {
    match p {
        None => (None, None),
        Some(v) if v.len() <= n => (p, None),
        Some(v) => (Some(&v[..n]), Some(&v[n..])),
    }
}

fn outcome(r: Result<()>, sent: usize) {
    unsafe {
        match r {
            Ok(()) => assert!(REFUSED >= sent, "a refused frame is reported as sent"),
            Err(e) => {
                assert!(REFUSED < sent, "fails although no frame was refused");
                assert!(REFUSED + 1 == sent, "goes on after a refused frame");
                assert!(address(&e) == ERROR, "another error is returned");
                std::mem::forget(e);
            }
        }
    }
}

/// fire_and_forget(&self, payload), chunking off
/// ensures one frame with the whole payload
#[kani::proof]
#[kani::unwind(7)]
fn whole() {
    let (m, d) = (part(), part());
    let s = socket(None);
    let r = s.fire_and_forget(payload(m, d));
    unsafe {
        assert!(N == 1, "not one frame");
        let f = SENT[0];
        assert!(f.fnf && !f.waits, "not sent as a fire-and-forget frame");
        assert!(!f.follows, "FOLLOWS is set on the only frame");
        assert!(f.stream == if USED == 1 { 3 } else { 1 }, "not on a newly allocated stream");
        same_opt(&f.meta, &m);
        same_opt(&f.data, &d);
        outcome(r, N);
    }
    std::mem::forget(s);
}

/// fire_and_forget(&self, payload), chunks of n bytes
/// ensures the chunks in order, FOLLOWS on all but the last; nothing after a refused frame
fn chunked(n: usize, most: usize) {
    let (mut m, mut d) = (part(), part());
    let fits = |p: P| p.map_or(true, |p| p.len() <= most * n);
    kani::assume(fits(m) && fits(d));
    let s = socket(Some(n));
    let r = s.fire_and_forget(payload(m, d));
    unsafe {
        let mut k = 0;
        let id = if USED == 1 { 3 } else { 1 };
        while k < 4 {
            if m.is_none() && d.is_none() {
                break;
            }
            if k > REFUSED {
                break;
            }
            assert!(k < N, "a chunk is not sent");
            let f = SENT[k];
            let ((m1, m2), (d1, d2)) = (take(m, n), take(d, n));
            assert!(f.fnf && !f.waits, "not sent as a fire-and-forget frame");
            assert!(f.stream == id, "not on a newly allocated stream, or not all on the same");
            same_opt(&f.meta, &m1);
            same_opt(&f.data, &d1);
            assert!(f.follows == (m2.is_some() || d2.is_some()), "FOLLOWS");
            m = m2;
            d = d2;
            k += 1;
        }
        assert!(N == k, "more frames than chunks");
        outcome(r, N);
    }
    std::mem::forget(s);
}
macro_rules! sizes {
    ($($name:ident $n:literal $most:literal)*) => {
        $(#[kani::proof]
        #[kani::unwind(7)]
        fn $name() {
            chunked($n, $most)
        })*
    };
}
sizes! { by_1 1 3 by_2 2 2 by_5 5 3 }

#[kani::proof]
#[kani::unwind(7)]
fn by_any() {
    let n: usize = kani::any();
    kani::assume(n > 0 && n < 1 << 40);
    chunked(n, 2)
}

/// metadata_push(&self, metadata)
/// ensures, once awaited, one frame with that metadata, and the connection's answer
#[kani::proof]
#[kani::unwind(7)]
fn pushed() {
    use std::task::{Context, Poll, Waker};
    let m = raw(1 << 40);
    let s = socket(if kani::any() { Some(kani::any()) } else { None });
    let mut f = s.metadata_push(Bytes::from_static(m));
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Pending => panic!("does not end although the connection answers"),
        Poll::Ready(r) => unsafe {
            assert!(N == 1, "not one frame");
            let f = SENT[0];
            assert!(!f.fnf && f.waits, "not sent as a metadata push");
            same_opt(&f.meta, &Some(m));
            outcome(r, N);
        },
    }
    std::mem::forget(f);
    std::mem::forget(s);
}
