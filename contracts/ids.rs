// C11, any number of IDs in use. One call at a time: `&self` becomes `&mut self`, and the atomic
// operations are those of a plain integer. (C12 is the concurrent case.)
use vstd::prelude::*;

verus! {

// ---- contracts of std and dashmap

pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }

#[verifier::external_body]
pub struct AtomicI32 { a: std::sync::atomic::AtomicI32 }

/// i32 addition, wrapping around
pub open spec fn plus(a: i32, b: int) -> i32 {
    ((a + b + 0x8000_0000) % 0x1_0000_0000 - 0x8000_0000) as i32
}

impl AtomicI32 {
    pub uninterp spec fn val(&self) -> i32;

    #[verifier::external_body]
    fn new(x: i32) -> (r: AtomicI32)
        ensures r.val() == x,
    { unimplemented!() }

    #[verifier::external_body]
    fn fetch_add(&mut self, d: i32, o: Ordering) -> (r: i32)
        ensures r == old(self).val(), final(self).val() == plus(r, d as int),
    { unimplemented!() }

    #[verifier::external_body]
    fn load(&self, o: Ordering) -> (r: i32)
        ensures r == self.val(),
    { unimplemented!() }

    #[verifier::external_body]
    fn store(&mut self, x: i32, o: Ordering)
        ensures final(self).val() == x,
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
pub struct DashMap<K, T> { k: std::marker::PhantomData<(K, T)> }

impl<K, T> DashMap<K, T> {
    pub uninterp spec fn keys(&self) -> Set<K>;

    #[verifier::external_body]
    fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self.keys().contains(*k),
    { unimplemented!() }
}

// ---- the property

//@const binate/src/connection/stream_id.rs | STREAM_ID_MASK

//@struct binate/src/connection/stream_id.rs | StreamIdProvider

/// the ID that counter value c stands for: its lower 31 bits
pub open spec fn id(c: i32) -> u32 { (if c >= 0 { c as int } else { c + 0x8000_0000 }) as u32 }

pub open spec fn free(c: i32, used: Set<u32>) -> bool { id(c) != 0 && !used.contains(id(c)) }

/// c is the counter after k steps of two from `from`, and none of those passed by is free
pub open spec fn passed(from: i32, c: i32, used: Set<u32>, k: int) -> bool {
    k >= 0 && c == plus(from, 2 * k) && forall|j: int| 0 <= j < k ==> !free(#[trigger] plus(from, 2 * j), used)
}

pub open spec fn reached(from: i32, c: i32, used: Set<u32>) -> bool {
    exists|k: int| #[trigger] passed(from, c, used, k)
}

broadcast proof fn start(c: i32, used: Set<u32>)
    ensures #[trigger] reached(c, c, used)
{ assert(passed(c, c, used, 0)); }

broadcast proof fn step(from: i32, c: i32, used: Set<u32>)
    requires #[trigger] reached(from, c, used), !free(c, used),
    ensures reached(from, plus(c, 2), used)
{
    let k = choose|k: int| #[trigger] passed(from, c, used, k);
    assert(plus(c, 2) == plus(from, 2 * (k + 1)));
    assert(passed(from, plus(c, 2), used, k + 1));
}

broadcast proof fn parity(from: i32, c: i32, used: Set<u32>)
    requires #[trigger] reached(from, c, used),
    ensures (c as int) % 2 == (from as int) % 2, (id(c) as int) % 2 == (from as int) % 2, id(c) < 0x8000_0000
{
    let k = choose|k: int| #[trigger] passed(from, c, used, k);
    assert((c as int) % 2 == (from as int) % 2);
}

broadcast proof fn masked(c: i32)
    ensures #[trigger] (c & 0x7FFF_FFFF) == id(c), (c & 0x7FFF_FFFF) >= 0
{
    assert(c >= 0 ==> (c & 0x7FFF_FFFF) == c) by (bit_vector);
    assert(c < 0 ==> (c & 0x7FFF_FFFF) == add(add(c, 0x7FFF_FFFF), 1) && (c & 0x7FFF_FFFF) >= 0) by (bit_vector);
}

// ---- the code

//@only binate/src/connection/stream_id.rs | impl StreamIdProvider | new_for_client new_for_server next_stream_id _new verif_new verif_state

impl StreamIdProvider {

//@fn binate/src/connection/stream_id.rs | impl StreamIdProvider | new_for_client
    ensures r.0.val() == 1
//@end

//@fn binate/src/connection/stream_id.rs | impl StreamIdProvider | new_for_server
    ensures r.0.val() == 2
//@end

//@fn binate/src/connection/stream_id.rs | impl StreamIdProvider | next_stream_id
    ensures
        // the first one, in steps of two, that is neither 0 nor in use
        exists|c: i32| #[trigger] reached(old(self).0.val(), c, $1.keys()) && free(c, $1.keys())
            && r == id(c) && final(self).0.val() == plus(c, 2),
        // hence
        r != 0, r < 0x8000_0000, !$1.keys().contains(r),
        (r as int) % 2 == (old(self).0.val() as int) % 2,
        (final(self).0.val() as int) % 2 == (old(self).0.val() as int) % 2,
//@self &self => &mut self
//@forever
//@use start, step, parity, masked
//@loop
    invariant_except_break
        reached(old(self).0.val(), self.0.val(), $1.keys()),
    ensures
        exists|c: i32| #[trigger] reached(old(self).0.val(), c, $1.keys()) && free(c, $1.keys())
            && $r == id(c) && self.0.val() == plus(c, 2),
//@end

}

}
fn main() {}
