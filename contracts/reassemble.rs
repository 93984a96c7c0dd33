// C09, lists of any length: the conversion of a BufList into a Payload, cut out of /repo on every
// run, with the contracts of Frame::decode (C05), of the frames' accessors (C07), of Payload::split
// (C20) and of bytes.
use vstd::prelude::*;

verus! {

// ---- contracts of std and bytes

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { v: std::collections::VecDeque<T> }

impl<T> View for VecDeque<T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}

impl<T> VecDeque<T> {
    /// the items in order, as `into_iter` gives them
    #[verifier::external_body]
    fn pop_front(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct Bytes { b: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }

impl Bytes {
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct BytesMut { b: Vec<u8> }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }

impl BytesMut {
    #[verifier::external_body]
    fn new() -> (r: BytesMut)
        ensures r@ == Seq::<u8>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    fn put(&mut self, b: Bytes)
        ensures final(self)@ == old(self)@ + b@,
    { unimplemented!() }

    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { unimplemented!() }

    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }

    #[verifier::external_body]
    fn freeze(self) -> (r: Bytes)
        ensures r@ == self@,
    { unimplemented!() }
}

pub trait Buf: Sized {
    spec fn bytes(&self) -> Seq<u8>;
}

// ---- contracts of binate

#[verifier::external_body]
pub struct DecodeError { e: () }

pub struct Payload { pub metadata: Option<Bytes>, pub data: Option<Bytes> }

impl Payload {
    fn new(metadata: Option<Bytes>, data: Option<Bytes>) -> (r: Payload)
        ensures r.metadata == metadata, r.data == data,
    { Payload { metadata, data } }

    fn split(self) -> (r: (Option<Bytes>, Option<Bytes>))
        ensures r.0 == self.metadata, r.1 == self.data,
    { (self.metadata, self.data) }
}

/// A frame that carries a payload.
pub struct Carrier { pub p: Payload }

impl Carrier {
    fn payload(self) -> (r: Payload)
        ensures r == self.p,
    { self.p }

    #[verifier::external_body]
    fn is_next(&self) -> bool { unimplemented!() }

    #[verifier::external_body]
    fn is_complete(&self) -> bool { unimplemented!() }

    #[verifier::external_body]
    fn is_follows(&self) -> bool { unimplemented!() }

    #[verifier::external_body]
    fn stream_id(&self) -> u32 { unimplemented!() }
}

/// Any other one.
#[verifier::external_body]
pub struct Other { o: () }

type RequestResponseFrame = Carrier;
type RequestFnfFrame = Carrier;
type RequestStreamFrame = Carrier;
type RequestChannelFrame = Carrier;
type PayloadFrame = Carrier;
type SetupFrame = Other;
type ErrorFrame = Other;
type LeaseFrame = Other;
type KeepaliveFrame = Other;
type RequestNFrame = Other;
type CancelFrame = Other;
type MetadataPushFrame = Other;
type ResumeFrame = Other;
type ResumeOkFrame = Other;

//@enum binate/src/frame/mod.rs | Frame

/// What a fragment decodes to.
pub uninterp spec fn decoded(b: Seq<u8>) -> Result<Frame, DecodeError>;

impl Frame {
    #[verifier::external_body]
    fn decode<B: Buf>(b: &mut B) -> (r: Result<Frame, DecodeError>)
        ensures r == decoded(old(b).bytes()),
    { unimplemented!() }
}

// ---- the property

pub open spec fn parts(f: Frame) -> (Option<Bytes>, Option<Bytes>) {
    match f {
        Frame::RequestResponse(v) => (v.p.metadata, v.p.data),
        Frame::RequestFnf(v) => (v.p.metadata, v.p.data),
        Frame::RequestStream(v) => (v.p.metadata, v.p.data),
        Frame::RequestChannel(v) => (v.p.metadata, v.p.data),
        Frame::Payload(v) => (v.p.metadata, v.p.data),
        _ => (None, None),
    }
}

pub open spec fn content(b: Option<Bytes>) -> Seq<u8> {
    match b { Some(b) => b@, None => Seq::empty() }
}

/// The frame of a fragment that decodes.
pub open spec fn frame<T: Buf>(x: T) -> Frame { decoded(x.bytes())->Ok_0 }

/// All fragments before the k-th decode.
pub open spec fn decode<T: Buf>(s: Seq<T>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> (#[trigger] decoded(s[i].bytes())) is Ok
}

pub open spec fn spec_metadata<T: Buf>(s: Seq<T>, k: int) -> Seq<u8> decreases k {
    if k <= 0 { Seq::empty() } else { spec_metadata(s, k - 1) + content(parts(frame(s[k - 1])).0) }
}

pub open spec fn spec_data<T: Buf>(s: Seq<T>, k: int) -> Seq<u8> decreases k {
    if k <= 0 { Seq::empty() } else { spec_data(s, k - 1) + content(parts(frame(s[k - 1])).1) }
}

/// Absent exactly if it is empty.
pub open spec fn is_part(b: Option<Bytes>, s: Seq<u8>) -> bool {
    match b { Some(b) => b@ == s && s.len() > 0, None => s.len() == 0 }
}

//@struct binate/src/connection/buf.rs | BufList

broadcast proof fn start<T>(s: Seq<T>)
    ensures #[trigger] s.skip(0) == s
{ assert(s.skip(0) =~= s); }

broadcast proof fn next<T>(s: Seq<T>, k: int)
    requires 0 <= k < s.len(),
    ensures #![trigger s.skip(k)] s.skip(k).skip(1) == s.skip(k + 1), s.skip(k)[0] == s[k]
{ assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }

broadcast proof fn adds(a: Seq<u8>)
    ensures #[trigger] (a + Seq::<u8>::empty()) == a
{ assert(a + Seq::<u8>::empty() =~= a); }

// ---- the code

impl<T: Buf> BufList<T> {

//@fn binate/src/connection/buf.rs | impl<T: Buf> TryInto<Payload> for BufList<T> | try_into
    ensures
        match r {
            Ok(p) => decode(self.bufs@, self.bufs@.len() as int)
                && is_part(p.metadata, spec_metadata(self.bufs@, self.bufs@.len() as int))
                && is_part(p.data, spec_data(self.bufs@, self.bufs@.len() as int)),
            Err(e) => exists|k: int| 0 <= k < self.bufs@.len() && decode(self.bufs@, k)
                && #[trigger] decoded(self.bufs@[k].bytes()) == Err::<Frame, DecodeError>(e),
        }
//@ret Self::Error => DecodeError
//@name m d = let mut (\w+) = BytesMut::new\(\)
//@use start, next, adds
//@loop
    invariant
        0 <= self.bufs@.len() - list@.len() <= self.bufs@.len(),
        list@ == self.bufs@.skip(self.bufs@.len() - list@.len()),
        decode(self.bufs@, self.bufs@.len() - list@.len()),
        $m@ == spec_metadata(self.bufs@, self.bufs@.len() - list@.len()),
        $d@ == spec_data(self.bufs@, self.bufs@.len() - list@.len()),
    decreases list@.len()
//@end

}

}
fn main() {}
