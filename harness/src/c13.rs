//! C13: the permit counter.
//!
//! Other threads may change the counter by any amount before each access of the call under proof
//! (they add and take); their net effect is `OTHERS`.
use crate::atomics::*;
use binate::connection::RequestCounter;

static mut OTHERS: i32 = 0;
/// Steps left in which others do something (so that retry loops end).
static mut STEPS: u8 = 0;

fn others(v: i32) -> i32 {
    unsafe {
        if STEPS == 0 {
            return v;
        }
        STEPS -= 1;
        let d: i32 = kani::any();
        OTHERS = OTHERS.wrapping_add(d);
        v.wrapping_add(d)
    }
}

/// A counter after any history, and its count.
fn counter() -> (RequestCounter, i32) {
    let n: u32 = kani::any();
    let c = RequestCounter::new(n);
    unsafe { ENV = nothing };
    assert!(c.load() == (n & 0x7FFF_FFFF) as i32, "the count does not start at the 31-bit number");
    unsafe {
        ACCESSES = 0;
        ENV = others;
        STEPS = 3;
    }
    (c, (n & 0x7FFF_FFFF) as i32)
}

/// ensures count == start + everything added - everything taken
fn total(c: &RequestCounter, start: i32, own: i32) {
    unsafe {
        if ACCESSES == 0 {
            bytes::model::limit() // not an AtomicI32 any more
        }
        ENV = nothing;
        assert!(c.load() == start.wrapping_add(OTHERS).wrapping_add(own), "an update is lost or wrong");
    }
}

among_others! {
    /// dec(&self): ensures count == old - 1, result == old, at one point in time
    #[kani::unwind(6)]
    fn dec() {
        let (c, start) = counter();
        let r = c.dec();
        unsafe { assert!(WRITES == 1 && r == BEFORE, "does not report the count before") };
        total(&c, start, -1);
    }
}
among_others! {
    /// add(&self, n): ensures count == old + n
    #[kani::unwind(6)]
    fn add() {
        let (c, start) = counter();
        let n: u32 = kani::any();
        kani::assume(n < 1 << 31);
        c.add(n);
        total(&c, start, n as i32);
    }
}
among_others! {
    /// load(&self): ensures result == count
    #[kani::unwind(6)]
    fn load_() {
        let (c, start) = counter();
        let r = c.load();
        unsafe { assert!(r == SEEN, "does not report the count") };
        total(&c, start, 0);
    }
}
among_others! {
    /// is_zero(&self): ensures result == (count == 0)
    #[kani::unwind(6)]
    fn is_zero() {
        let (c, start) = counter();
        let r = c.is_zero();
        unsafe { assert!(r == (SEEN == 0), "is_zero") };
        total(&c, start, 0);
    }
}
among_others! {
    /// Three calls in a row, alone: the arithmetic of whole histories follows by induction on the
    /// calls; the totals stay within 31 bits.
    #[kani::unwind(6)]
    fn history() {
        let (c, start) = counter();
        unsafe { STEPS = 0 };
        let mut w = start as i64;
        for _ in 0..3 {
            if kani::any() {
                let n: u32 = kani::any();
                kani::assume(w + (n as i64) < 1 << 31);
                c.add(n);
                w += n as i64;
            } else if w > 0 {
                assert!(c.dec() as i64 == w, "does not report the count before");
                w -= 1;
            }
            assert!(c.load() as i64 == w, "wrong count");
            assert!(c.is_zero() == (w == 0), "is_zero");
        }
    }
}
