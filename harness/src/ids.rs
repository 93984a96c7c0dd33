//! C11 and C12: stream IDs.
use crate::atomics::*;
use binate::connection::StreamIdProvider;
use dashmap::DashMap;

const MASK: i32 = 0x7FFF_FFFF;

/// The IDs in use: an arbitrary set (answers stay the same).
const KEYS: usize = if cfg!(feature = "c12") { 5 } else { 8 };
static mut ASKED: [u32; KEYS] = [0; KEYS];
static mut USED: [bool; KEYS] = [false; KEYS];
static mut N: usize = 0;
/// How many more candidates may be in use. (The others are cut off: a skipped candidate leaves
/// the counter only, as in any other state.)
static mut SKIPS: u32 = 0;

fn in_use(k: u32) -> bool {
    unsafe {
        let mut j = 0;
        while j < KEYS {
            if j < N && ASKED[j] == k {
                return USED[j];
            }
            j += 1;
        }
        let u: bool = kani::any();
        if u {
            kani::assume(SKIPS > 0);
            SKIPS -= 1;
        }
        if N == KEYS {
            bytes::model::limit()
        }
        ASKED[N] = k;
        USED[N] = u;
        N += 1;
        u
    }
}

/// In use, or may it be: not asked about.
fn unused(k: u32) -> bool {
    unsafe {
        let mut j = 0;
        while j < KEYS {
            if j < N && ASKED[j] == k {
                return !USED[j];
            }
            j += 1;
        }
        false
    }
}

fn store() -> DashMap<u32, ()> {
    unsafe { dashmap::MEMBER = in_use };
    DashMap::new()
}

fn provider(client: bool) -> (StreamIdProvider, i32) {
    if client {
        (StreamIdProvider::new_for_client(), 1)
    } else {
        (StreamIdProvider::new_for_server(), 2)
    }
}

#[cfg(feature = "c11")]
mod c11 {
    use super::*;

    static mut JUMP: bool = false;
    static mut STATE: i32 = 0;
    static mut PARITY: i32 = 0;

    /// Earlier calls have left any state that they can leave.
    fn earlier(v: i32) -> i32 {
        unsafe {
            if !JUMP {
                return v;
            }
            JUMP = false;
            assert!(v & 1 == PARITY, "starts with the wrong parity");
            let c: i32 = kani::any();
            kani::assume(c & 1 == PARITY);
            STATE = c;
            c
        }
    }

    fn next_free(mut c: i32) -> (u32, i32) {
        // at most 3 in use, and 0
        for _ in 0..5 {
            let id = (c & MASK) as u32;
            c = c.wrapping_add(2);
            if id != 0 && unused(id) {
                return (id, c);
            }
            assert!(id == 0 || unsafe { N } > 0, "an ID is passed over that is not in use");
            kani::assume(id == 0 || {
                let mut asked = false;
                for j in 0..KEYS {
                    asked |= unsafe { j < N && ASKED[j] == id };
                }
                assert!(asked, "an ID is passed over without asking whether it is in use");
                asked
            });
        }
        panic!("an ID is passed over that is not in use")
    }

    /// next_stream_id(&self, store)
    /// ensures result != 0, result < 2^31, parity of the role, result not in store
    /// ensures result is the first such ID, in steps of 2 from the state; the state is then the next
    fn next(client: bool) {
        let (p, _) = provider(client);
        let s = store();
        unsafe {
            JUMP = true;
            PARITY = client as i32;
            SKIPS = 3;
            ENV = earlier;
        }
        let id = p.next_stream_id(&s);
        unsafe {
            if ACCESSES == 0 {
                bytes::model::limit() // not an AtomicI32 any more
            }
        }
        assert!(id != 0, "stream ID 0");
        assert!(id <= MASK as u32, "stream ID of more than 31 bits");
        assert!(id & 1 == client as u32, "stream ID with the wrong parity");
        assert!(unused(id), "a stream ID that is in use");
        let (w, c) = next_free(unsafe { STATE });
        assert!(id == w, "not the next free ID");
        // the call after it goes on from there
        let id = p.next_stream_id(&s);
        let (w, _) = next_free(c);
        assert!(id == w, "the call after it does not go on from there");
        kani::cover!(unsafe { SKIPS } == 0, "three are skipped");
    }

    among_others! {
        #[kani::unwind(10)]
        fn client() {
            next(true)
        }
    }
    among_others! {
        #[kani::unwind(10)]
        fn server() {
            next(false)
        }
    }

    among_others! {
        /// new_for_client, new_for_server: ensures the first candidate is 1, 2
        #[kani::unwind(10)]
        fn first() {
            let client: bool = kani::any();
            let (p, w) = provider(client);
            let s = store();
            assert!(p.next_stream_id(&s) == w as u32, "does not start at 1 or 2");
        }
    }

    /// Steps of 2 do not come back before the range is passed through.
    #[kani::proof]
    fn period() {
        let (c, k): (i32, u32) = (kani::any(), kani::any());
        kani::assume(0 < k && k < 1 << 30);
        assert!(c & MASK != c.wrapping_add((k << 1) as i32) & MASK);
        assert!(c & MASK == c.wrapping_add((1u32 << 31) as i32) & MASK);
        assert!((c & MASK) & 1 == c & 1);
    }
}

#[cfg(feature = "c12")]
mod c12 {
    use super::*;

    /// IDs that other threads have got: intervals of the counter.
    const STEPS: usize = 5;
    static mut FROM: [i32; STEPS] = [0; STEPS];
    static mut TO: [i32; STEPS] = [0; STEPS];
    static mut STEP: usize = 0;
    static mut ACTIVE: u8 = 0;

    /// Rely: every other thread claims by atomic steps of 2.
    /// (No wrap-around: all of it stays below 2^31.)
    fn others(v: i32) -> i32 {
        unsafe {
            if ACTIVE == 0 {
                return v;
            }
            ACTIVE -= 1;
            let k: i32 = kani::any();
            kani::assume(k >= 0 && k < 1 << 27);
            kani::assume(v >= 0);
            let w = v + 2 * k;
            if k > 0 {
                // what they get now, nobody has got before
                let mut j = 0;
                while j < STEPS {
                    if j < STEP {
                        assert!(w <= FROM[j] || v >= TO[j] || (v ^ FROM[j]) & 1 == 1,
                            "two other callers get the same stream ID");
                    }
                    j += 1;
                }
                FROM[STEP] = v;
                TO[STEP] = w;
                STEP += 1;
            }
            w
        }
    }

    /// Guarantee: an own write is such a claim.
    fn claims(v: i32, w: i32) {
        assert!(w > v && (w - v) & 1 == 0, "the counter is set back, or by an odd step");
    }

    /// next_stream_id(&self, store) among other callers
    /// ensures nobody else gets the result, before, meanwhile or later
    fn unique(client: bool) {
        let (p, _) = provider(client);
        let s = store();
        unsafe {
            SKIPS = 1;
            ACTIVE = STEPS as u8 - 1;
            ENV = others;
            WROTE = claims;
        }
        let id = p.next_stream_id(&s) as i32;
        unsafe {
            if ACCESSES == 0 {
                bytes::model::limit() // not an AtomicI32 any more
            }
            ACTIVE = 1;
        }
        // the others go on, and so does this caller
        let again = p.next_stream_id(&s) as i32;
        assert!(again != id, "the same stream ID again");
        unsafe {
            let mut j = 0;
            while j < STEPS {
                if j < STEP {
                    assert!(id < FROM[j] || id >= TO[j] || (id ^ FROM[j]) & 1 == 1, "two callers get the same stream ID");
                }
                j += 1;
            }
        }
    }

    among_others! {
        #[kani::unwind(7)]
        fn client() {
            unique(true)
        }
    }
    among_others! {
        #[kani::unwind(7)]
        fn server() {
            unique(false)
        }
    }
}
