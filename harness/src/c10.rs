//! C10: the buffer list is the concatenation of its buffers.
//!
//! The buffers are consecutive windows of one arbitrary byte string, which is therefore the
//! concatenation. The elements are known only by the contract of `Buf` (Abs): their lengths and
//! where their chunks end are arbitrary. Bounded in the number of buffers.
use crate::gen::*;
use binate::verif::List;
use bytes::{Buf, Bytes};
use std::io::IoSlice;

/// A buffer: bytes at..end of the byte string; chunks end at `mid` and at `end`.
#[derive(Clone, Copy)]
struct State {
    at: usize,
    mid: usize,
    end: usize,
}
static mut BASE: &[u8] = &[];
static mut STATES: [State; 4] = [State { at: 0, mid: 0, end: 0 }; 4];

/// The handle of a buffer.
pub struct Abs(u8);

impl Abs {
    fn get(&self) -> State {
        unsafe { STATES[self.0 as usize] }
    }
    fn upto(&self) -> usize {
        let s = self.get();
        if s.at < s.mid {
            s.mid
        } else {
            s.end
        }
    }
}
fn piece(a: usize, b: usize) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(BASE.as_ptr().wrapping_add(a), b - a) }
}

impl Buf for Abs {
    fn remaining(&self) -> usize {
        let s = self.get();
        s.end - s.at
    }
    fn chunk(&self) -> &[u8] {
        piece(self.get().at, self.upto())
    }
    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> usize {
        let s = self.get();
        if s.at == s.end || dst.is_empty() {
            return 0;
        }
        dst[0] = IoSlice::new(piece(s.at, self.upto()));
        if dst.len() == 1 || s.at >= s.mid || s.mid == s.end {
            return 1;
        }
        dst[1] = IoSlice::new(piece(s.mid, s.end));
        2
    }
    fn advance(&mut self, k: usize) {
        assert!(k <= self.remaining(), "an element is advanced past its end");
        unsafe { STATES[self.0 as usize].at += k }
    }
    fn copy_to_bytes(&mut self, k: usize) -> Bytes {
        assert!(k <= self.remaining(), "more is copied from an element than it has");
        let p = self.get().at;
        unsafe { STATES[self.0 as usize].at += k }
        bytes::model::view(piece(p, p + k).as_ptr(), k)
    }
}

/// A list of N non-empty buffers (with chunks that end anywhere, or whole), and their concatenation.
/// push(&mut self, b): requires b has bytes; ensures they follow those of the list
fn list<const N: usize>(split: bool) -> (List<Abs>, &'static [u8]) {
    let base = raw(OBJ);
    unsafe { BASE = base };
    let mut l = List::new();
    let mut at = 0;
    for k in 0..N {
        let (mid, end): (usize, usize) = (kani::any(), kani::any());
        kani::assume(at < mid && mid <= end && end <= base.len() && (split || mid == end));
        unsafe { STATES[k] = State { at, mid, end } };
        l.push(Abs(k as u8));
        at = end;
    }
    (l, &base[..at])
}

/// The list says it is `left`.
fn is(l: &List<Abs>, left: &[u8]) {
    assert!(l.remaining() == left.len(), "wrong number of bytes remaining");
    assert!(l.has_remaining() == (left.len() > 0), "has_remaining");
    let c = l.chunk();
    assert!(c.len() <= left.len(), "chunk beyond the end");
    assert!(c.len() > 0 || left.len() == 0, "empty chunk before the end");
    same(c, &left[..c.len()]);
}

/// remaining(&self), chunk(&self): ensures as `is`
fn observed<const N: usize>() {
    let (l, left) = list::<N>(true);
    is(&l, left);
    std::mem::forget(l);
}

/// chunks_vectored(&self, dst): ensures result <= dst.len(); the first `result` slices are
/// consecutive, start at the first unread byte, are not empty, and are everything if there is room
fn vectored<const N: usize>() {
    let (l, left) = list::<N>(true);
    let mut dst = [IoSlice::new(&[]); 5];
    let room: usize = kani::any();
    kani::assume(room <= 5);
    let n = l.chunks_vectored(&mut dst[..room]);
    assert!(n <= room, "fills more slices than there are");
    let mut at = 0;
    for k in 0..5 {
        if k < n {
            let s = &dst[k];
            assert!(s.len() > 0, "empty slice");
            assert!(s.len() <= left.len() - at, "slice beyond the end");
            same(s, &left[at..at + s.len()]);
            at += s.len();
        }
    }
    assert!(n == room || at == left.len(), "slices left out");
    std::mem::forget(l);
}

/// advance(&mut self, k): requires k <= remaining; ensures the first k bytes are gone
fn advanced<const N: usize>() {
    let (mut l, left) = list::<N>(true);
    let k: usize = kani::any();
    kani::assume(k <= left.len());
    l.advance(k);
    is(&l, &left[k..]);
    std::mem::forget(l);
}

/// copy_to_bytes(&mut self, k): requires k <= remaining;
/// ensures the first k bytes are returned and gone
fn copied<const N: usize>() {
    let i: usize = kani::any();
    bytes::model::set_probe(i);
    let (mut l, left) = list::<N>(N < 2);
    let k: usize = kani::any();
    kani::assume(k <= left.len());
    let b = l.copy_to_bytes(k);
    assert!(b.len() == k, "copies out the wrong number of bytes");
    if i < k {
        assert!(b[i] == left[i], "copies out a wrong byte");
    }
    is(&l, &left[k..]);
    std::mem::forget(b);
    std::mem::forget(l);
}

/// advance, copy_to_bytes: more than remains is rejected
fn too_much<const N: usize>(copy: bool) {
    let (mut l, left) = list::<N>(!copy);
    let k: usize = kani::any();
    kani::assume(k > left.len());
    if copy {
        std::mem::forget(l.copy_to_bytes(k));
    } else {
        l.advance(k);
    }
    std::mem::forget(l);
    assert!(false, "ACCEPTED: more bytes than remain");
}

macro_rules! sizes {
    ($($name:ident $n:literal)*) => {
        $(mod $name {
            #[kani::proof]
            #[kani::unwind(9)]
            fn observed() {
                super::observed::<$n>()
            }
            #[kani::proof]
            #[kani::unwind(9)]
            fn vectored() {
                super::vectored::<$n>()
            }
            #[kani::proof]
            #[kani::unwind(9)]
            fn advanced() {
                super::advanced::<$n>()
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn copied() {
                super::copied::<$n>()
            }
            #[kani::proof]
            #[kani::unwind(9)]
            fn advance_rejects() {
                super::too_much::<$n>(false)
            }
            #[kani::proof]
            #[kani::unwind(5)]
            fn copy_rejects() {
                super::too_much::<$n>(true)
            }
        })*
    };
}
sizes! { none 0 one 1 two 2 three 3 }
