//! C09: reassembly.
//!
//! `Frame::decode` is replaced by its contract: for each fragment an error, or a frame of any
//! type with any parts (what those are is C05's). The parts of the result are compared at an
//! arbitrary index.
//!
//! The first fragment leaves an arbitrary intermediate result (any metadata, any data), so the
//! two-fragment case is the induction step for lists of any length if the loop carries nothing
//! else; three fragments are checked besides. Bounded in the number of fragments otherwise.
use crate::gen::*;
use binate::frame::codec::*;
use binate::frame::{DecodeError, Flags, Frame, Version};
use binate::prelude::Payload;
use binate::verif::List;
use bytes::{Buf, Bytes};

type P = Option<&'static [u8]>;

/// What decoding a fragment gives.
#[derive(Clone, Copy)]
struct Plan {
    ty: u8,
    meta: P,
    data: P,
    error: u32,
}
const NONE: Plan = Plan { ty: 0, meta: None, data: None, error: 0 };
static mut PLAN: [Plan; 3] = [NONE; 3];
static mut DECODED: [bool; 3] = [false; 3];
const CARRIERS: u8 = 5;
const FAILS: u8 = 14;

/// Its number, and how many bytes it has: some, and after decoding any number.
pub struct Fragment(u8, usize);
impl Buf for Fragment {
    fn remaining(&self) -> usize {
        self.1
    }
    fn chunk(&self) -> &[u8] {
        bytes::model::limit()
    }
    fn advance(&mut self, _: usize) {
        bytes::model::limit()
    }
    fn get_u8(&mut self) -> u8 {
        self.1 = kani::any();
        self.0
    }
}

fn own(p: P) -> Option<Bytes> {
    match p {
        Some(p) => Some(Bytes::from_static(p)),
        None => None,
    }
}
fn flags() -> Flags {
    let mut f = if kani::any() { Flags::NEXT } else { Flags::FOLLOWS };
    if kani::any() {
        f = f | Flags::COMPLETE;
    }
    if kani::any() {
        f = f | Flags::FOLLOWS;
    }
    f
}
fn some() -> u32 {
    let n: u32 = kani::any();
    kani::assume(n > 0 && n < 1 << 31);
    n
}
fn fail(k: u32) -> DecodeError {
    match k {
        0 => DecodeError::InComplete,
        1 => DecodeError::InvalidStreamId { expected: "0", found: 7 },
        k => DecodeError::UnrecognizedFrameType(k as u16),
    }
}

/// Frame::decode(buf): ensures any result, any number of bytes left
fn decode<B: Buf>(buf: &mut B) -> Result<Frame, DecodeError> {
    let id = buf.get_u8() as usize;
    let p = unsafe {
        assert!(!DECODED[id], "a fragment is decoded twice");
        DECODED[id] = true;
        PLAN[id]
    };
    let payload = crate::mk::payload(p.meta, p.data);
    let sid: u32 = kani::any();
    let sid = sid & 0x7FFF_FFFF;
    Ok(match p.ty {
        0 => Frame::Payload(PayloadFrame::new(sid, flags(), payload)),
        1 => Frame::RequestFnf(RequestFnfFrame::new(sid, kani::any(), payload)),
        2 => Frame::RequestResponse(RequestResponseFrame::new(sid, kani::any(), payload)),
        3 => Frame::RequestStream(RequestStreamFrame::new(sid, kani::any(), some(), payload)),
        4 => Frame::RequestChannel(RequestChannelFrame::new(sid, kani::any(), kani::any(), some(), payload)),
        5 => Frame::Cancel(CancelFrame::new(sid)),
        6 => Frame::RequestN(RequestNFrame::new(sid, 1)),
        7 => Frame::Error(ErrorFrame::new(sid, 0x201, own(p.data))),
        8 => Frame::Keepalive(KeepaliveFrame::new(1, own(p.data), false)),
        9 => Frame::Lease(LeaseFrame::new(1, 1, own(p.meta))),
        10 => Frame::MetadataPush(MetadataPushFrame::new(own(p.meta).unwrap_or(Bytes::new()))),
        11 => Frame::ResumeOk(ResumeOkFrame::new(1)),
        12 => Frame::Resume(ResumeFrame::new(Version::new(1, 0), Bytes::new(), 1, 1)),
        13 => {
            let b = SetupFrame::builder();
            let b = match p.meta {
                Some(m) => b.set_metadata(Bytes::from_static(m)),
                None => b,
            };
            Frame::Setup(b.set_data(own(p.data).unwrap_or(Bytes::new())).build())
        }
        _ => return Err(fail(p.error)),
    })
}

fn part() -> P {
    if kani::any() {
        Some(raw(1 << 40))
    } else {
        None
    }
}

fn whole(result: Option<&Bytes>, all: &[P], i: usize) {
    let mut n = 0;
    let mut byte = 0;
    for p in all {
        if let Some(p) = p {
            if i >= n && i - n < p.len() {
                byte = p[i - n];
            }
            n += p.len();
        }
    }
    match result {
        None => assert!(n == 0, "a part is lost"),
        Some(b) => {
            assert!(n > 0, "an empty part is not reported as absent");
            assert!(b.len() == n, "a part has the wrong length");
            if i < n {
                assert!(b[i] == byte, "a part has a wrong byte");
            }
        }
    }
}

/// TryInto<Payload> for a list of N fragments
/// ensures the first decode error, if any; otherwise the concatenated parts of the frames that
///         carry a payload, empty ones absent
fn reassembled<const N: usize>() {
    let i: usize = kani::any();
    bytes::model::set_probe(i);
    let mut l = List::new();
    let (mut m, mut d): ([P; N], [P; N]) = ([None; N], [None; N]);
    let mut error = None;
    for k in 0..N {
        let mut p = Plan { ty: kani::any(), meta: part(), data: part(), error: kani::any() };
        kani::assume(p.ty <= FAILS);
        p.error &= 0xFFFF;
        unsafe { PLAN[k] = p };
        let n: usize = kani::any();
        kani::assume(n > 0);
        l.push(Fragment(k as u8, n));
        if p.ty < CARRIERS {
            m[k] = p.meta;
            d[k] = p.data;
        }
        if p.ty == FAILS && error.is_none() {
            error = Some(p.error);
        }
    }
    match (l.into_payload(), error) {
        (Ok(p), None) => {
            whole(p.metadata(), &m, i);
            whole(p.data(), &d, i);
            std::mem::forget(p);
        }
        (Err(e), Some(k)) => {
            assert!(e == fail(k), "fails with another error");
            std::mem::forget(e);
        }
        (Ok(_), Some(_)) => panic!("an undecodable fragment is passed over"),
        (Err(_), None) => panic!("fails although every fragment decodes"),
    }
}

macro_rules! lists {
    ($($name:ident $n:literal)*) => {
        $(#[kani::proof]
        #[kani::stub(binate::frame::Frame::decode, decode)]
        #[kani::unwind(5)]
        fn $name() {
            reassembled::<$n>()
        })*
    };
}
lists! { none 0 one 1 two 2 three 3 }
