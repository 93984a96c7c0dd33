//! Atomic integers among other threads (rely/guarantee).
//!
//! Every access to the integer is preceded by a step of the environment: any number of steps of
//! any number of other threads, together `ENV` (an arbitrary change within what the property says
//! other threads do). The access itself is atomic, whatever the `Ordering`: with one memory
//! location all orderings agree.
use std::sync::atomic::Ordering;

/// What the environment does to a value; set by the harness.
pub static mut ENV: fn(i32) -> i32 = nothing;
/// Own accesses; own writes (changes), the value before the last one, and their sum.
pub static mut ACCESSES: u32 = 0;
pub static mut WRITES: u32 = 0;
pub static mut BEFORE: i32 = 0;
pub static mut EFFECT: i32 = 0;
/// The value seen by the last access.
pub static mut SEEN: i32 = 0;
/// Called at each own write: value before, value after.
pub static mut WROTE: fn(i32, i32) = unwatched;

pub fn nothing(v: i32) -> i32 {
    v
}
pub fn unwatched(_: i32, _: i32) {}

/// Any type of 4 bytes; others are outside this model.
unsafe fn bits<T: Copy>(v: T) -> i32 {
    if std::mem::size_of::<T>() != 4 {
        bytes::model::limit()
    }
    *(&v as *const T as *const i32)
}
unsafe fn back<T: Copy>(v: i32) -> T {
    *(&v as *const i32 as *const T)
}

unsafe fn access<T: Copy>(a: *mut T, f: impl FnOnce(i32) -> i32) -> T {
    if std::mem::size_of::<T>() != 4 {
        bytes::model::limit()
    }
    let p = a as *mut i32;
    *p = ENV(*p);
    let v = *p;
    ACCESSES += 1;
    SEEN = v;
    let w = f(v);
    if w != v {
        WRITES += 1;
        BEFORE = v;
        EFFECT = EFFECT.wrapping_add(w.wrapping_sub(v));
        WROTE(v, w);
    }
    *p = w;
    back(v)
}

pub unsafe fn load<T: Copy, const V: bool>(a: *const T, _: Ordering) -> T {
    access(a as *mut T, |v| v)
}
pub unsafe fn store<T: Copy, const V: bool>(a: *mut T, n: T, _: Ordering) {
    access(a, |_| bits(n));
}
pub unsafe fn swap<T: Copy>(a: *mut T, n: T, _: Ordering) -> T {
    access(a, |_| bits(n))
}
pub unsafe fn add<T: Copy, U: Copy>(a: *mut T, n: U, _: Ordering) -> T {
    access(a, |v| v.wrapping_add(bits(n)))
}
pub unsafe fn sub<T: Copy, U: Copy>(a: *mut T, n: U, _: Ordering) -> T {
    access(a, |v| v.wrapping_sub(bits(n)))
}
pub unsafe fn and<T: Copy, U: Copy>(a: *mut T, n: U, _: Ordering) -> T {
    access(a, |v| v & bits(n))
}
pub unsafe fn nand<T: Copy, U: Copy>(a: *mut T, n: U, _: Ordering) -> T {
    access(a, |v| !(v & bits(n)))
}
pub unsafe fn or<T: Copy, U: Copy>(a: *mut T, n: U, _: Ordering) -> T {
    access(a, |v| v | bits(n))
}
pub unsafe fn xor<T: Copy, U: Copy>(a: *mut T, n: U, _: Ordering) -> T {
    access(a, |v| v ^ bits(n))
}
pub unsafe fn max<T: Copy>(a: *mut T, n: T, _: Ordering) -> T {
    access(a, |v| v.max(bits(n)))
}
pub unsafe fn min<T: Copy>(a: *mut T, n: T, _: Ordering) -> T {
    access(a, |v| v.min(bits(n)))
}
pub unsafe fn umax<T: Copy>(a: *mut T, n: T, _: Ordering) -> T {
    access(a, |v| (v as u32).max(bits(n) as u32) as i32)
}
pub unsafe fn umin<T: Copy>(a: *mut T, n: T, _: Ordering) -> T {
    access(a, |v| (v as u32).min(bits(n) as u32) as i32)
}
pub unsafe fn compare_exchange<T: Copy>(a: *mut T, old: T, new: T, _: Ordering, _: Ordering) -> Result<T, T> {
    let v = access(a, |v| if v == bits(old) { bits(new) } else { v });
    if bits(v) == bits(old) {
        Ok(v)
    } else {
        Err(v)
    }
}

/// Adds the stubs to a harness.
#[macro_export]
macro_rules! among_others {
    ($(#[$a:meta])* fn $name:ident() $body:block) => {
        #[kani::proof]
        #[kani::stub(core::sync::atomic::atomic_load, crate::atomics::load)]
        #[kani::stub(core::sync::atomic::atomic_store, crate::atomics::store)]
        #[kani::stub(core::sync::atomic::atomic_swap, crate::atomics::swap)]
        #[kani::stub(core::sync::atomic::atomic_add, crate::atomics::add)]
        #[kani::stub(core::sync::atomic::atomic_sub, crate::atomics::sub)]
        #[kani::stub(core::sync::atomic::atomic_and, crate::atomics::and)]
        #[kani::stub(core::sync::atomic::atomic_nand, crate::atomics::nand)]
        #[kani::stub(core::sync::atomic::atomic_or, crate::atomics::or)]
        #[kani::stub(core::sync::atomic::atomic_xor, crate::atomics::xor)]
        #[kani::stub(core::sync::atomic::atomic_max, crate::atomics::max)]
        #[kani::stub(core::sync::atomic::atomic_min, crate::atomics::min)]
        #[kani::stub(core::sync::atomic::atomic_umax, crate::atomics::umax)]
        #[kani::stub(core::sync::atomic::atomic_umin, crate::atomics::umin)]
        #[kani::stub(core::sync::atomic::atomic_compare_exchange, crate::atomics::compare_exchange)]
        #[kani::stub(core::sync::atomic::atomic_compare_exchange_weak, crate::atomics::compare_exchange)]
        $(#[$a])*
        fn $name() $body
    };
}
