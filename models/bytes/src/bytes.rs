//! CONTRACT MODEL of `bytes::Bytes` 1.0.1 (see ../MODEL.md).
//!
//! Only the representation differs from the real crate: an immutable view
//! `(ptr, len)` whose memory is never freed, instead of a reference-counted one.
//! Every operation below keeps the real crate's pre- and postconditions,
//! including its panics.
use core::iter::FromIterator;
use core::ops::{Deref, RangeBounds};
use core::{cmp, hash, mem, slice};

use alloc::{borrow::Borrow, boxed::Box, string::String, vec::Vec};

use crate::buf::IntoIter;
use crate::Buf;

/// A view of immutable bytes.
pub struct Bytes {
    ptr: *const u8,
    len: usize,
}

unsafe impl Send for Bytes {}
unsafe impl Sync for Bytes {}

impl Bytes {
    /// The empty byte string.
    #[inline]
    pub const fn new() -> Bytes {
        const EMPTY: &[u8] = &[];
        Bytes::from_static(EMPTY)
    }

    /// A view of a static slice.
    #[inline]
    pub const fn from_static(bytes: &'static [u8]) -> Bytes {
        Bytes { ptr: bytes.as_ptr(), len: bytes.len() }
    }

    pub(crate) unsafe fn from_raw(ptr: *const u8, len: usize) -> Bytes {
        Bytes { ptr, len }
    }

    /// Length.
    #[inline]
    pub fn len(&self) -> usize {
        self.len
    }

    /// Length is zero.
    #[inline]
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }

    /// ensures result@ == data@
    pub fn copy_from_slice(data: &[u8]) -> Self {
        let mut b = crate::BytesMut::new();
        b.extend_from_slice(data);
        b.freeze()
    }

    /// requires begin <= end <= len (panics otherwise); ensures result@ == self@[begin..end]
    pub fn slice(&self, range: impl RangeBounds<usize>) -> Bytes {
        use core::ops::Bound;
        let len = self.len();
        let begin = match range.start_bound() {
            Bound::Included(&n) => n,
            Bound::Excluded(&n) => n + 1,
            Bound::Unbounded => 0,
        };
        let end = match range.end_bound() {
            Bound::Included(&n) => n.checked_add(1).expect("out of range"),
            Bound::Excluded(&n) => n,
            Bound::Unbounded => len,
        };
        assert!(begin <= end, "range start must not be greater than end");
        assert!(end <= len, "range end out of bounds");
        if end == begin {
            return Bytes::new();
        }
        Bytes { ptr: unsafe { self.ptr.wrapping_add(begin) }, len: end - begin }
    }

    /// requires subset within self; ensures result@ == subset@
    pub fn slice_ref(&self, subset: &[u8]) -> Bytes {
        if subset.is_empty() {
            return Bytes::new();
        }
        let bytes_p = self.as_ptr() as usize;
        let sub_p = subset.as_ptr() as usize;
        assert!(sub_p >= bytes_p, "subset pointer is smaller than self pointer");
        assert!(sub_p + subset.len() <= bytes_p + self.len(), "subset is out of bounds");
        let off = sub_p - bytes_p;
        self.slice(off..(off + subset.len()))
    }

    /// requires at <= len (panics otherwise);
    /// ensures result@ == old@[at..], self@ == old@[..at]
    pub fn split_off(&mut self, at: usize) -> Bytes {
        assert!(at <= self.len(), "split_off out of bounds");
        if at == self.len() {
            return Bytes::new();
        }
        if at == 0 {
            return mem::replace(self, Bytes::new());
        }
        let ret = Bytes { ptr: unsafe { self.ptr.wrapping_add(at) }, len: self.len - at };
        self.len = at;
        ret
    }

    /// requires at <= len (panics otherwise);
    /// ensures result@ == old@[..at], self@ == old@[at..]
    pub fn split_to(&mut self, at: usize) -> Bytes {
        assert!(at <= self.len(), "split_to out of bounds");
        if at == self.len() {
            return mem::replace(self, Bytes::new());
        }
        if at == 0 {
            return Bytes::new();
        }
        let ret = Bytes { ptr: self.ptr, len: at };
        unsafe { self.inc_start(at) };
        ret
    }

    /// ensures self@ == old@[..min(len, old.len)]
    #[inline]
    pub fn truncate(&mut self, len: usize) {
        if len < self.len {
            self.len = len;
        }
    }

    /// ensures self@ is empty
    #[inline]
    pub fn clear(&mut self) {
        self.truncate(0);
    }

    #[inline]
    fn as_slice(&self) -> &[u8] {
        unsafe { slice::from_raw_parts(self.ptr, self.len) }
    }

    /// The next `w` bytes, big-endian.
    #[inline]
    fn get(&mut self, w: usize) -> u64 {
        assert!(self.len >= w);
        let p = self.ptr;
        let at = |k: usize| -> u64 { unsafe { *p.wrapping_add(k) as u64 } };
        let v = match w {
            1 => at(0),
            2 => at(0) << 8 | at(1),
            4 => at(0) << 24 | at(1) << 16 | at(2) << 8 | at(3),
            _ => {
                at(0) << 56
                    | at(1) << 48
                    | at(2) << 40
                    | at(3) << 32
                    | at(4) << 24
                    | at(5) << 16
                    | at(6) << 8
                    | at(7)
            }
        };
        unsafe { self.inc_start(w) };
        v
    }

    #[inline]
    unsafe fn inc_start(&mut self, by: usize) {
        self.len -= by;
        self.ptr = self.ptr.wrapping_add(by);
    }
}

impl Clone for Bytes {
    #[inline]
    fn clone(&self) -> Bytes {
        Bytes { ptr: self.ptr, len: self.len }
    }
}

impl Buf for Bytes {
    #[inline]
    fn remaining(&self) -> usize {
        self.len()
    }

    #[inline]
    fn chunk(&self) -> &[u8] {
        self.as_slice()
    }

    #[inline]
    fn advance(&mut self, cnt: usize) {
        assert!(cnt <= self.len(), "cannot advance past `remaining`");
        unsafe {
            self.inc_start(cnt);
        }
    }

    // MODEL: `Bytes` is one chunk, so the provided method's loop runs once
    fn copy_to_slice(&mut self, dst: &mut [u8]) {
        assert!(self.remaining() >= dst.len());
        let mut k = 0;
        while k < dst.len() {
            dst[k] = unsafe { *self.ptr.wrapping_add(k) };
            k += 1;
        }
        unsafe { self.inc_start(dst.len()) };
    }

    // MODEL: the provided getters, without their loop.
    // requires size <= remaining (panics otherwise)
    fn get_u8(&mut self) -> u8 {
        self.get(1) as u8
    }
    fn get_i8(&mut self) -> i8 {
        self.get(1) as i8
    }
    fn get_u16(&mut self) -> u16 {
        self.get(2) as u16
    }
    fn get_u16_le(&mut self) -> u16 {
        (self.get(2) as u16).swap_bytes()
    }
    fn get_i16(&mut self) -> i16 {
        self.get(2) as i16
    }
    fn get_u32(&mut self) -> u32 {
        self.get(4) as u32
    }
    fn get_u32_le(&mut self) -> u32 {
        (self.get(4) as u32).swap_bytes()
    }
    fn get_i32(&mut self) -> i32 {
        self.get(4) as i32
    }
    fn get_u64(&mut self) -> u64 {
        self.get(8)
    }
    fn get_u64_le(&mut self) -> u64 {
        self.get(8).swap_bytes()
    }
    fn get_i64(&mut self) -> i64 {
        self.get(8) as i64
    }

    fn copy_to_bytes(&mut self, len: usize) -> crate::Bytes {
        if len == self.remaining() {
            core::mem::replace(self, Bytes::new())
        } else {
            let ret = self.slice(..len);
            self.advance(len);
            ret
        }
    }
}

impl Deref for Bytes {
    type Target = [u8];

    #[inline]
    fn deref(&self) -> &[u8] {
        self.as_slice()
    }
}

impl AsRef<[u8]> for Bytes {
    #[inline]
    fn as_ref(&self) -> &[u8] {
        self.as_slice()
    }
}

impl hash::Hash for Bytes {
    fn hash<H>(&self, state: &mut H)
    where
        H: hash::Hasher,
    {
        self.as_slice().hash(state);
    }
}

impl Borrow<[u8]> for Bytes {
    fn borrow(&self) -> &[u8] {
        self.as_slice()
    }
}

impl IntoIterator for Bytes {
    type Item = u8;
    type IntoIter = IntoIter<Bytes>;

    fn into_iter(self) -> Self::IntoIter {
        IntoIter::new(self)
    }
}

impl<'a> IntoIterator for &'a Bytes {
    type Item = &'a u8;
    type IntoIter = core::slice::Iter<'a, u8>;

    fn into_iter(self) -> Self::IntoIter {
        self.as_slice().into_iter()
    }
}

impl FromIterator<u8> for Bytes {
    fn from_iter<T: IntoIterator<Item = u8>>(into_iter: T) -> Self {
        Vec::from_iter(into_iter).into()
    }
}

// impl Eq

impl PartialEq for Bytes {
    fn eq(&self, other: &Bytes) -> bool {
        crate::model::bytes_eq(self.as_slice(), other.as_slice())
    }
}

impl PartialOrd for Bytes {
    fn partial_cmp(&self, other: &Bytes) -> Option<cmp::Ordering> {
        self.as_slice().partial_cmp(other.as_slice())
    }
}

impl Ord for Bytes {
    fn cmp(&self, other: &Bytes) -> cmp::Ordering {
        self.as_slice().cmp(other.as_slice())
    }
}

impl Eq for Bytes {}

impl PartialEq<[u8]> for Bytes {
    fn eq(&self, other: &[u8]) -> bool {
        self.as_slice() == other
    }
}

impl PartialOrd<[u8]> for Bytes {
    fn partial_cmp(&self, other: &[u8]) -> Option<cmp::Ordering> {
        self.as_slice().partial_cmp(other)
    }
}

impl PartialEq<Bytes> for [u8] {
    fn eq(&self, other: &Bytes) -> bool {
        *other == *self
    }
}

impl PartialOrd<Bytes> for [u8] {
    fn partial_cmp(&self, other: &Bytes) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self, other)
    }
}

impl PartialEq<str> for Bytes {
    fn eq(&self, other: &str) -> bool {
        self.as_slice() == other.as_bytes()
    }
}

impl PartialOrd<str> for Bytes {
    fn partial_cmp(&self, other: &str) -> Option<cmp::Ordering> {
        self.as_slice().partial_cmp(other.as_bytes())
    }
}

impl PartialEq<Bytes> for str {
    fn eq(&self, other: &Bytes) -> bool {
        *other == *self
    }
}

impl PartialOrd<Bytes> for str {
    fn partial_cmp(&self, other: &Bytes) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self.as_bytes(), other)
    }
}

impl PartialEq<Vec<u8>> for Bytes {
    fn eq(&self, other: &Vec<u8>) -> bool {
        *self == &other[..]
    }
}

impl PartialOrd<Vec<u8>> for Bytes {
    fn partial_cmp(&self, other: &Vec<u8>) -> Option<cmp::Ordering> {
        self.as_slice().partial_cmp(&other[..])
    }
}

impl PartialEq<Bytes> for Vec<u8> {
    fn eq(&self, other: &Bytes) -> bool {
        *other == *self
    }
}

impl PartialOrd<Bytes> for Vec<u8> {
    fn partial_cmp(&self, other: &Bytes) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self, other)
    }
}

impl PartialEq<String> for Bytes {
    fn eq(&self, other: &String) -> bool {
        *self == &other[..]
    }
}

impl PartialOrd<String> for Bytes {
    fn partial_cmp(&self, other: &String) -> Option<cmp::Ordering> {
        self.as_slice().partial_cmp(other.as_bytes())
    }
}

impl PartialEq<Bytes> for String {
    fn eq(&self, other: &Bytes) -> bool {
        *other == *self
    }
}

impl PartialOrd<Bytes> for String {
    fn partial_cmp(&self, other: &Bytes) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self.as_bytes(), other)
    }
}

impl PartialEq<Bytes> for &[u8] {
    fn eq(&self, other: &Bytes) -> bool {
        *other == *self
    }
}

impl PartialOrd<Bytes> for &[u8] {
    fn partial_cmp(&self, other: &Bytes) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self, other)
    }
}

impl PartialEq<Bytes> for &str {
    fn eq(&self, other: &Bytes) -> bool {
        *other == *self
    }
}

impl PartialOrd<Bytes> for &str {
    fn partial_cmp(&self, other: &Bytes) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self.as_bytes(), other)
    }
}

impl<'a, T: ?Sized> PartialEq<&'a T> for Bytes
where
    Bytes: PartialEq<T>,
{
    fn eq(&self, other: &&'a T) -> bool {
        *self == **other
    }
}

impl<'a, T: ?Sized> PartialOrd<&'a T> for Bytes
where
    Bytes: PartialOrd<T>,
{
    fn partial_cmp(&self, other: &&'a T) -> Option<cmp::Ordering> {
        self.partial_cmp(&**other)
    }
}

// impl From

impl Default for Bytes {
    #[inline]
    fn default() -> Bytes {
        Bytes::new()
    }
}

impl From<&'static [u8]> for Bytes {
    fn from(slice: &'static [u8]) -> Bytes {
        Bytes::from_static(slice)
    }
}

impl From<&'static str> for Bytes {
    fn from(slice: &'static str) -> Bytes {
        Bytes::from_static(slice.as_bytes())
    }
}

impl From<Vec<u8>> for Bytes {
    fn from(vec: Vec<u8>) -> Bytes {
        let b = Bytes { ptr: vec.as_ptr(), len: vec.len() };
        core::mem::forget(vec);
        b
    }
}

impl From<String> for Bytes {
    fn from(s: String) -> Bytes {
        Bytes::from(s.into_bytes())
    }
}
