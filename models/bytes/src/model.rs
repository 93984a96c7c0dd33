//! Support for the contract model: what the specifications may observe.
use crate::bytes_mut::{BytesMut, MAX};
use crate::Bytes;

/// Reached when code uses a part of the `bytes` API the model does not cover.
/// The checks classify it as "undecided", never as a violation.
#[cold]
pub fn limit() -> ! {
    panic!("MODEL-LIMIT: outside the contract model of `bytes`");
}

/// The byte of the buffer's abstract value at the probe index.
/// requires probe < len, and that the probe was set before anything was appended
pub fn probed(b: &BytesMut) -> u8 {
    b.probed
}

/// From now on the probe index counts from the current end of the buffer.
pub fn rebase(b: &mut BytesMut) {
    b.rel = 0;
    b.tag = true;
}

/// Whether the buffer has only been appended to since `rebase`.
pub fn only_appended(b: &BytesMut) -> bool {
    b.tag
}


/// The index at which flattened buffers agree with their abstract value
/// (besides all by-value pieces, which always agree).
static mut PROBE: usize = usize::MAX;

/// Sets the probe index. From now on buffers keep their length and the byte there,
/// nothing else.
pub fn set_probe(i: usize) {
    unsafe {
        PROBE = i;
        PROBING = true;
    }
}
static mut PROBING: bool = false;
pub(crate) fn probing() -> bool {
    unsafe { PROBING }
}
pub(crate) fn probe() -> usize {
    unsafe { PROBE }
}

static mut LOADS: bool = false;

/// From now on short pieces are kept by value too.
pub fn set_loads() {
    unsafe { LOADS = true }
}
/// Whether `piece` knows the value of short pieces in memory.
pub fn loads() -> bool {
    unsafe { LOADS }
}

/// Contiguous memory holding the buffer's abstract value.
#[cfg(not(kani))]
pub(crate) fn materialize(b: &BytesMut) -> (*const u8, usize) {
    let mut v = alloc::vec::Vec::new();
    for s in &b.segs[..b.n] {
        if s.ptr.is_null() {
            for j in 0..s.len {
                v.push((s.val >> (8 * (s.len - 1 - j))) as u8);
            }
        } else {
            v.extend_from_slice(unsafe { core::slice::from_raw_parts(s.ptr, s.len) });
        }
    }
    let l: &'static [u8] = alloc::boxed::Box::leak(v.into_boxed_slice());
    (l.as_ptr(), l.len())
}

/// Contiguous memory holding the buffer's abstract value. Over-approximated:
/// only the byte at the probe is determined, or if there is no probe the by-value pieces.
#[cfg(kani)]
pub(crate) fn materialize(b: &BytesMut) -> (*const u8, usize) {
    let total = b.total;
    if total == 0 {
        return (core::ptr::NonNull::dangling().as_ptr() as *const u8, 0);
    }
    let p = unsafe { alloc::alloc::alloc(core::alloc::Layout::from_size_align_unchecked(total, 1)) };
    let probe = unsafe { PROBE };
    if probing() {
        if probe < total {
            kani::assume(unsafe { *p.wrapping_add(probe) } == b.probed);
        }
        return (p, total);
    }
    // one long piece only: it is already contiguous
    let mut k = 0;
    while k < MAX {
        if k < b.n && b.segs[k].len == total && !b.segs[k].ptr.is_null() {
            return (b.segs[k].ptr, total);
        }
        k += 1;
    }
    let mut pos = 0usize;
    let mut k = 0;
    while k < MAX {
        if k < b.n {
            let s = &b.segs[k];
            if s.ptr.is_null() {
                let mut j = 0;
                while j < 8 {
                    if j < s.len {
                        let v = (s.val >> (8 * (s.len - 1 - j))) as u8;
                        kani::assume(unsafe { *p.wrapping_add(pos + j) } == v);
                    }
                    j += 1;
                }
            }
            pos += s.len;
        }
        k += 1;
    }
    (p, total)
}

/// Equality of byte strings. `true` for the same view; lengths must agree; for
/// other views the answer is arbitrary but `false` names a differing index.
#[cfg(kani)]
pub(crate) fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    if a.len() == 0 || a.as_ptr() == b.as_ptr() {
        return true;
    }
    if kani::any() {
        let i: usize = kani::any();
        kani::assume(i < a.len() && a[i] != b[i]);
        return false;
    }
    let i = unsafe { PROBE };
    if i < a.len() {
        kani::assume(a[i] == b[i]);
    }
    true
}

/// Equality of byte strings.
#[cfg(not(kani))]
pub(crate) fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    a == b
}

/// How many pieces the buffer's abstract value is made of.
pub fn pieces(b: &BytesMut) -> usize {
    b.n
}

/// Piece number `k`: its value (if it has at most 8 bytes), where it is (null:
/// by value only), its length.
pub fn piece(b: &BytesMut, k: usize) -> (u64, *const u8, usize) {
    let s = &b.segs[k];
    (s.val, s.ptr, s.len)
}

/// The bytes at `ptr`. requires `len` readable bytes there that never change
pub fn view(ptr: *const u8, len: usize) -> Bytes {
    unsafe { Bytes::from_raw(ptr, len) }
}
