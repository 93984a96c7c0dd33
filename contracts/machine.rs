// C14, any number of chunks: fire_and_forget, cut out of /repo on every run, with the contracts of
// the stream ID provider (C11), of the iterator over chunks (C08), of the frame's constructor (C07)
// and of a connection that answers anything and keeps a list of what it is given and what it
// answered. (`&self` becomes `&mut self` for that list and the counter.)
use vstd::prelude::*;

verus! {

#[verifier::external_body]
pub struct Error { e: () }

type Result<T> = core::result::Result<T, Error>;

#[verifier::external_body]
pub struct Bytes { b: Vec<u8> }

pub type Metadata = Bytes;

#[verifier::external_body]
pub struct Payload { p: () }

/// The pieces of a payload.
pub uninterp spec fn pieces(p: Payload, n: usize) -> Seq<Payload>;

#[verifier::external_body]
pub struct PayloadChunks { p: () }

impl PayloadChunks {
    /// what is still to come
    pub uninterp spec fn rest(&self) -> Seq<Payload>;

    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self.rest().len(),
    { unimplemented!() }

    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Payload>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
            old(self).rest().len() <= usize::MAX,
    { unimplemented!() }
}

impl Payload {
    #[verifier::external_body]
    fn chunks(self, n: usize) -> (r: PayloadChunks)
        requires n > 0,
        ensures r.rest() == pieces(self, n),
    { unimplemented!() }
}

pub struct RequestFnfFrame { pub stream_id: u32, pub follows: bool, pub payload: Payload }

impl RequestFnfFrame {
    fn new(stream_id: u32, follows: bool, payload: Payload) -> (r: RequestFnfFrame)
        requires 0 < stream_id < 0x8000_0000,
        ensures r.stream_id == stream_id, r.follows == follows, r.payload == payload,
    { RequestFnfFrame { stream_id, follows, payload } }
}

pub enum Frame { RequestFnf(RequestFnfFrame) }

/// A frame that the connection has been given, and its answer.
pub struct Sent { pub frame: Frame, pub answer: Result<()> }

#[verifier::external_body]
pub struct Connection { c: () }

impl Connection {
    pub uninterp spec fn sent(&self) -> Seq<Sent>;

    #[verifier::external_body]
    fn send_and_forget(&mut self, frame: Frame) -> (r: Result<()>)
        ensures final(self).sent() == old(self).sent().push(Sent { frame, answer: r }),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct Receivers { r: () }

#[verifier::external_body]
pub struct StreamIdProvider { p: () }

impl StreamIdProvider {
    /// the IDs handed out so far
    pub uninterp spec fn given(&self) -> Seq<u32>;

    #[verifier::external_body]
    fn next_stream_id(&mut self, r: &Receivers) -> (id: u32)
        ensures 0 < id < 0x8000_0000, final(self).given() == old(self).given().push(id),
    { unimplemented!() }
}

pub struct RSocketMachine {
    pub stream_id: StreamIdProvider,
    pub connection: Connection,
    pub receivers: Receivers,
    pub chunk_payload: Option<usize>,
}

// ---- the property

/// What is to be sent.
pub open spec fn request(m: RSocketMachine, id: u32, p: Payload, i: int) -> Frame {
    match m.chunk_payload {
        Some(n) => Frame::RequestFnf(RequestFnfFrame {
            stream_id: id, follows: i + 1 < pieces(p, n).len(), payload: pieces(p, n)[i],
        }),
        None => Frame::RequestFnf(RequestFnfFrame { stream_id: id, follows: false, payload: p }),
    }
}

pub open spec fn count(m: RSocketMachine, p: Payload) -> int {
    match m.chunk_payload { Some(n) => pieces(p, n).len() as int, None => 1 }
}

/// Since `m`, the first k frames have been sent, each of them accepted.
pub open spec fn accepted(m: RSocketMachine, now: RSocketMachine, id: u32, p: Payload, k: int) -> bool {
    &&& now.connection.sent().len() == m.connection.sent().len() + k
    &&& forall|i: int| 0 <= i < m.connection.sent().len() ==> #[trigger] now.connection.sent()[i] == m.connection.sent()[i]
    &&& forall|i: int| 0 <= i < k ==>
        (#[trigger] now.connection.sent()[m.connection.sent().len() + i]).frame == request(m, id, p, i)
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] now.connection.sent()[m.connection.sent().len() + i]).answer is Ok
}

/// Since `m`, some of the frames have been sent, and the last of them refused with `e`.
pub open spec fn refused(m: RSocketMachine, now: RSocketMachine, id: u32, p: Payload, e: Error) -> bool {
    let n = m.connection.sent().len() as int;
    let k = now.connection.sent().len() as int - n;
    &&& 0 < k <= count(m, p)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] now.connection.sent()[i] == m.connection.sent()[i]
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] now.connection.sent()[n + i]).frame == request(m, id, p, i)
    &&& forall|i: int| 0 <= i < k - 1 ==> (#[trigger] now.connection.sent()[n + i]).answer is Ok
    &&& now.connection.sent()[n + k - 1].answer == Err::<(), Error>(e)
}

broadcast proof fn start<T>(s: Seq<T>)
    ensures #[trigger] s.skip(0) == s
{ assert(s.skip(0) =~= s); }

broadcast proof fn next<T>(s: Seq<T>, k: int)
    requires 0 <= k < s.len(),
    ensures #![trigger s.skip(k)] s.skip(k).skip(1) == s.skip(k + 1), s.skip(k)[0] == s[k], s.skip(k).len() == s.len() - k
{ assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }

// ---- the code

impl RSocketMachine {

//@fn binate/src/connection/socket.rs | impl RSocket for RSocketMachine | fire_and_forget
    requires old(self).chunk_payload != Some(0usize)
    ensures
        // one new stream ID
        final(self).stream_id.given().len() == old(self).stream_id.given().len() + 1,
        match r {
            Ok(_) => accepted(*old(self), *final(self), final(self).stream_id.given().last(), $1, count(*old(self), $1)),
            Err(e) => refused(*old(self), *final(self), final(self).stream_id.given().last(), $1, e),
        }
//@self &self => &mut self
//@use start, next
//@loop
    invariant
        0 <= nth <= pieces($1, old(self).chunk_payload->Some_0).len(),
        pieces($1, old(self).chunk_payload->Some_0).len() <= usize::MAX,
        old(self).chunk_payload is Some,
        self.stream_id.given().len() == old(self).stream_id.given().len() + 1,
        each.rest() == pieces($1, old(self).chunk_payload->Some_0).skip(nth as int),
        accepted(*old(self), *self, self.stream_id.given().last(), $1, nth as int),
    decreases each.rest().len()
//@end

}

}
fn main() {}
