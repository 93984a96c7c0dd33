// C12, any number of steps of any number of callers. The guarantee: a call touches the counter
// only by atomic steps of two (`fetch_add`), and the ID it hands out is one that a step of its own
// has claimed. The steps of all callers come one after the other (that is what atomicity means), and
// two of them never stand for the same ID before the counter has wrapped around: `no_two_alike`.
use vstd::prelude::*;

verus! {

pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }

#[verifier::external_body]
pub struct AtomicI32 { a: std::sync::atomic::AtomicI32 }

impl AtomicI32 {
    /// the value before a step that the call under proof has taken
    pub uninterp spec fn claimed(&self, v: i32) -> bool;

    #[verifier::external_body]
    fn fetch_add(&self, d: i32, o: Ordering) -> (r: i32)
        requires d == 2,
        ensures self.claimed(r),
    { unimplemented!() }

    /// reading does not claim
    #[verifier::external_body]
    fn load(&self, o: Ordering) -> (r: i32)
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
pub struct DashMap<K, T> { k: std::marker::PhantomData<(K, T)> }

impl<K, T> DashMap<K, T> {
    /// others insert and remove: any answer
    #[verifier::external_body]
    fn contains_key(&self, k: &K) -> (r: bool)
    { unimplemented!() }
}

//@const binate/src/connection/stream_id.rs | STREAM_ID_MASK

//@struct binate/src/connection/stream_id.rs | StreamIdProvider

/// lower 31 bits: different for different values less than 2^31 apart
pub open spec fn id(c: i32) -> u32 { (if c >= 0 { c as int } else { c + 0x8000_0000 }) as u32 }

broadcast proof fn masked(c: i32)
    ensures #[trigger] (c & 0x7FFF_FFFF) == id(c), (c & 0x7FFF_FFFF) >= 0
{
    assert(c >= 0 ==> (c & 0x7FFF_FFFF) == c) by (bit_vector);
    assert(c < 0 ==> (c & 0x7FFF_FFFF) == add(add(c, 0x7FFF_FFFF), 1) && (c & 0x7FFF_FFFF) >= 0) by (bit_vector);
}

proof fn distinct(c: i32, d: i32)
    requires c != d, -0x8000_0000 < c - d < 0x8000_0000,
    ensures id(c) != id(d)
{ }

/// The steps that all callers have taken, in the order in which the counter took them: step i has
/// claimed h[i]. It does not wrap around.
pub open spec fn steps(h: Seq<i32>) -> bool {
    forall|i: int| 0 <= i && i + 1 < h.len() ==> #[trigger] h[i + 1] == h[i] + 2
}

proof fn apart(h: Seq<i32>, i: int, j: int)
    requires steps(h), 0 <= i <= j < h.len(),
    ensures h[j] == h[i] + 2 * (j - i)
    decreases j - i
{
    if i < j {
        apart(h, i, j - 1);
        assert(h[(j - 1) + 1] == h[j - 1] + 2);
    }
}

/// C12: whoever took them, different steps stand for different IDs.
proof fn no_two_alike(h: Seq<i32>, i: int, j: int)
    requires steps(h), 0 <= i < j < h.len(), h[0] >= 0,
    ensures id(h[i]) != id(h[j])
{
    apart(h, 0, i);
    apart(h, i, j);
    distinct(h[i], h[j]);
}

//@only binate/src/connection/stream_id.rs | impl StreamIdProvider | new_for_client new_for_server next_stream_id _new verif_new verif_state

impl StreamIdProvider {

//@fn binate/src/connection/stream_id.rs | impl StreamIdProvider | next_stream_id
    ensures exists|c: i32| #[trigger] self.0.claimed(c) && r == id(c)
//@forever
//@use masked
//@loop
    ensures exists|c: i32| #[trigger] self.0.claimed(c) && $r == id(c)
//@end

}

}
fn main() {}
