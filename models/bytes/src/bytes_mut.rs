//! CONTRACT MODEL of `bytes::BytesMut` 1.0.1 (see ../MODEL.md).
//!
//! The real crate keeps one growable allocation and copies into it.  The model
//! keeps the *sequence of appended pieces* ("rope"): short pieces by value, long
//! ones as `(ptr, len)`.  The abstract value (`view`, the byte sequence) after
//! each operation is the same.
use core::iter::{FromIterator, Iterator};
use core::ops::Deref;
use core::{cmp, fmt, hash, mem, slice};

use alloc::{borrow::Borrow, string::String, vec::Vec};

use crate::buf::{IntoIter, UninitSlice};
use crate::{Buf, BufMut, Bytes};

/// Most pieces a rope holds. Exceeding it is a MODEL-LIMIT, never a verdict.
pub(crate) const MAX: usize = 24;

#[derive(Clone, Copy)]
pub(crate) struct Seg {
    pub(crate) ptr: *const u8, // null: by value
    pub(crate) len: usize,
    pub(crate) val: u64, // big-endian, `len` bytes
}

const NOSEG: Seg = Seg { ptr: core::ptr::null(), len: 0, val: 0 };

/// A growable byte buffer.
pub struct BytesMut {
    pub(crate) segs: [Seg; MAX],
    pub(crate) n: usize,
    pub(crate) total: usize,
    pub(crate) cap: usize,
    // the byte at the probe index, noted when it was appended
    pub(crate) probed: u8,
    // bytes appended since creation, or since `model::rebase`
    pub(crate) rel: usize,
    // only appended to since `model::rebase`
    pub(crate) tag: bool,
}

unsafe impl Send for BytesMut {}
unsafe impl Sync for BytesMut {}

impl BytesMut {
    /// ensures result@ is empty
    #[inline]
    pub fn with_capacity(capacity: usize) -> BytesMut {
        BytesMut { segs: [NOSEG; MAX], n: 0, total: 0, cap: capacity, probed: 0, rel: 0, tag: false }
    }

    /// ensures result@ is empty
    #[inline]
    pub fn new() -> BytesMut {
        BytesMut::with_capacity(0)
    }

    /// Length.
    #[inline]
    pub fn len(&self) -> usize {
        self.total
    }

    /// Length is zero.
    #[inline]
    pub fn is_empty(&self) -> bool {
        self.total == 0
    }

    /// ensures result >= len
    #[inline]
    pub fn capacity(&self) -> usize {
        cmp::max(self.cap, self.total)
    }

    /// ensures result@ == self@
    #[inline]
    pub fn freeze(self) -> Bytes {
        let (p, l) = crate::model::materialize(&self);
        unsafe { Bytes::from_raw(p, l) }
    }

    /// ensures result@ == old@, self@ empty
    pub fn split(&mut self) -> BytesMut {
        mem::replace(self, BytesMut::new())
    }

    /// ensures result@ == old@[..at], self@ == old@[at..]
    pub fn split_to(&mut self, at: usize) -> BytesMut {
        assert!(at <= self.len(), "split_to out of bounds");
        let mut b = mem::replace(self, BytesMut::new()).freeze();
        let head = b.split_to(at);
        self.push_ref(b.as_ptr(), b.len());
        let mut r = BytesMut::new();
        r.push_ref(head.as_ptr(), head.len());
        r
    }

    /// ensures result@ == old@[at..], self@ == old@[..at]
    pub fn split_off(&mut self, at: usize) -> BytesMut {
        assert!(at <= self.capacity(), "split_off out of bounds");
        let head = self.split_to(cmp::min(at, self.total));
        mem::replace(self, head)
    }

    /// ensures self@ == old@[..min(len, old.len)]
    pub fn truncate(&mut self, len: usize) {
        if len == 0 {
            self.clear();
        } else if len < self.total {
            let head = self.split_to(len);
            *self = head;
        }
    }

    /// ensures self@ is empty
    pub fn clear(&mut self) {
        self.n = 0;
        self.total = 0;
        self.rel = 0;
        self.tag = false;
    }

    /// ensures capacity >= len + additional
    #[inline]
    pub fn reserve(&mut self, additional: usize) {
        let want = self.total.checked_add(additional).expect("overflow");
        if want > self.cap {
            self.cap = want;
        }
    }

    /// ensures self@ == old@ + other@
    pub fn unsplit(&mut self, other: BytesMut) {
        let b = other.freeze();
        self.push_ref(b.as_ptr(), b.len());
    }

    /// ensures self@ == old@ + extend@
    pub fn extend_from_slice(&mut self, extend: &[u8]) {
        self.push_ref(extend.as_ptr(), extend.len());
    }

    pub(crate) fn push_ref(&mut self, ptr: *const u8, len: usize) {
        #[cfg(not(kani))]
        let ptr = {
            let v = unsafe { slice::from_raw_parts(ptr, len) }.to_vec();
            alloc::boxed::Box::leak(v.into_boxed_slice()).as_ptr()
        };
        let mut val = 0;
        if crate::model::loads() && len <= 8 {
            // may be a temporary: keep its bytes
            let mut j = 0;
            while j < 8 {
                if j < len {
                    val = (val << 8) | unsafe { *ptr.wrapping_add(j) } as u64;
                }
                j += 1;
            }
        }
        self.push(Seg { ptr, len, val });
    }

    pub(crate) fn push_val(&mut self, val: u64, len: usize) {
        self.push(Seg { ptr: core::ptr::null(), len, val });
    }

    pub(crate) fn push(&mut self, s: Seg) {
        #[cfg(not(kani))]
        {
            if self.n == MAX {
                // native runs only (differential test of the model): compact
                let b = mem::replace(self, BytesMut::new()).freeze();
                self.segs[0] = Seg { ptr: b.as_ptr(), len: b.len(), val: 0 };
                self.n = 1;
                self.total = b.len();
            }
        }
        let at = crate::model::probe();
        if crate::model::probing() && at >= self.rel && at - self.rel < s.len {
            let j = at - self.rel;
            self.probed = if s.ptr.is_null() {
                (s.val >> (8 * (s.len - 1 - j) as u32)) as u8
            } else {
                unsafe { *s.ptr.wrapping_add(j) }
            };
        }
        if !crate::model::probing() {
            if self.n >= MAX {
                crate::model::limit();
            }
            self.segs[self.n] = s;
            self.n += 1;
        }
        self.total = self.total.checked_add(s.len).expect("overflow");
        self.rel = self.rel.wrapping_add(s.len);
    }

    fn as_slice(&self) -> &[u8] {
        let (p, l) = crate::model::materialize(self);
        unsafe { slice::from_raw_parts(p, l) }
    }
}

impl Buf for BytesMut {
    #[inline]
    fn remaining(&self) -> usize {
        self.len()
    }

    #[inline]
    fn chunk(&self) -> &[u8] {
        self.as_slice()
    }

    #[inline]
    fn advance(&mut self, cnt: usize) {
        assert!(cnt <= self.remaining(), "cannot advance past `remaining`");
        let _ = self.split_to(cnt);
    }

    fn copy_to_bytes(&mut self, len: usize) -> crate::Bytes {
        self.split_to(len).freeze()
    }
}

unsafe impl BufMut for BytesMut {
    #[inline]
    fn remaining_mut(&self) -> usize {
        usize::max_value() - self.len()
    }

    unsafe fn advance_mut(&mut self, _cnt: usize) {
        crate::model::limit();
    }

    fn chunk_mut(&mut self) -> &mut UninitSlice {
        crate::model::limit();
    }

    fn put<T: crate::Buf>(&mut self, mut src: T)
    where
        Self: Sized,
    {
        // In case the src isn't contiguous, reserve upfront
        self.reserve(src.remaining());
        while src.has_remaining() {
            let l;
            {
                let s = src.chunk();
                l = s.len();
                self.extend_from_slice(s);
            }
            src.advance(l);
        }
    }

    #[inline]
    fn put_slice(&mut self, src: &[u8]) {
        self.extend_from_slice(src);
    }

    // MODEL: the provided methods append `n.to_be_bytes()` (`to_le_bytes()`)
    fn put_u8(&mut self, n: u8) {
        self.push_val(n as u64, 1);
    }
    fn put_i8(&mut self, n: i8) {
        self.push_val(n as u8 as u64, 1);
    }
    fn put_u16(&mut self, n: u16) {
        self.push_val(n as u64, 2);
    }
    fn put_u16_le(&mut self, n: u16) {
        self.push_val(n.swap_bytes() as u64, 2);
    }
    fn put_i16(&mut self, n: i16) {
        self.push_val(n as u16 as u64, 2);
    }
    fn put_u32(&mut self, n: u32) {
        self.push_val(n as u64, 4);
    }
    fn put_u32_le(&mut self, n: u32) {
        self.push_val(n.swap_bytes() as u64, 4);
    }
    fn put_i32(&mut self, n: i32) {
        self.push_val(n as u32 as u64, 4);
    }
    fn put_u64(&mut self, n: u64) {
        self.push_val(n, 8);
    }
    fn put_u64_le(&mut self, n: u64) {
        self.push_val(n.swap_bytes(), 8);
    }
    fn put_i64(&mut self, n: i64) {
        self.push_val(n as u64, 8);
    }
    fn put_uint(&mut self, n: u64, nbytes: usize) {
        assert!(nbytes <= 8);
        let n = if nbytes < 8 { n & ((1u64 << (8 * nbytes)) - 1) } else { n };
        self.push_val(n, nbytes);
    }
}

impl AsRef<[u8]> for BytesMut {
    #[inline]
    fn as_ref(&self) -> &[u8] {
        self.as_slice()
    }
}

impl Deref for BytesMut {
    type Target = [u8];

    #[inline]
    fn deref(&self) -> &[u8] {
        self.as_ref()
    }
}

impl core::ops::DerefMut for BytesMut {
    #[inline]
    fn deref_mut(&mut self) -> &mut [u8] {
        crate::model::limit();
    }
}

impl AsMut<[u8]> for BytesMut {
    #[inline]
    fn as_mut(&mut self) -> &mut [u8] {
        crate::model::limit();
    }
}

impl<'a> From<&'a [u8]> for BytesMut {
    fn from(src: &'a [u8]) -> BytesMut {
        let mut b = BytesMut::new();
        b.extend_from_slice(src);
        b
    }
}

impl<'a> From<&'a str> for BytesMut {
    fn from(src: &'a str) -> BytesMut {
        BytesMut::from(src.as_bytes())
    }
}

impl From<BytesMut> for Bytes {
    fn from(src: BytesMut) -> Bytes {
        src.freeze()
    }
}

impl Default for BytesMut {
    #[inline]
    fn default() -> BytesMut {
        BytesMut::new()
    }
}

impl FromIterator<u8> for BytesMut {
    fn from_iter<T: IntoIterator<Item = u8>>(into_iter: T) -> Self {
        let mut b = BytesMut::new();
        b.extend(into_iter);
        b
    }
}

impl<'a> FromIterator<&'a u8> for BytesMut {
    fn from_iter<T: IntoIterator<Item = &'a u8>>(into_iter: T) -> Self {
        BytesMut::from_iter(into_iter.into_iter().map(|b| *b))
    }
}

impl PartialEq for BytesMut {
    fn eq(&self, other: &BytesMut) -> bool {
        crate::model::bytes_eq(self.as_slice(), other.as_slice())
    }
}

impl PartialOrd for BytesMut {
    fn partial_cmp(&self, other: &BytesMut) -> Option<cmp::Ordering> {
        self.as_slice().partial_cmp(other.as_slice())
    }
}

impl Ord for BytesMut {
    fn cmp(&self, other: &BytesMut) -> cmp::Ordering {
        self.as_slice().cmp(other.as_slice())
    }
}

impl Eq for BytesMut {}

impl hash::Hash for BytesMut {
    fn hash<H>(&self, state: &mut H)
    where
        H: hash::Hasher,
    {
        let s: &[u8] = self.as_ref();
        s.hash(state);
    }
}

impl Borrow<[u8]> for BytesMut {
    fn borrow(&self) -> &[u8] {
        self.as_ref()
    }
}

impl fmt::Write for BytesMut {
    #[inline]
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.remaining_mut() >= s.len() {
            self.put_slice(s.as_bytes());
            Ok(())
        } else {
            Err(fmt::Error)
        }
    }

    #[inline]
    fn write_fmt(&mut self, args: fmt::Arguments<'_>) -> fmt::Result {
        fmt::write(self, args)
    }
}

impl Clone for BytesMut {
    fn clone(&self) -> BytesMut {
        BytesMut::from(&self[..])
    }
}

impl IntoIterator for BytesMut {
    type Item = u8;
    type IntoIter = IntoIter<BytesMut>;

    fn into_iter(self) -> Self::IntoIter {
        IntoIter::new(self)
    }
}

impl<'a> IntoIterator for &'a BytesMut {
    type Item = &'a u8;
    type IntoIter = core::slice::Iter<'a, u8>;

    fn into_iter(self) -> Self::IntoIter {
        self.as_ref().into_iter()
    }
}

impl Extend<u8> for BytesMut {
    fn extend<T>(&mut self, iter: T)
    where
        T: IntoIterator<Item = u8>,
    {
        let iter = iter.into_iter();

        let (lower, _) = iter.size_hint();
        self.reserve(lower);

        // TODO: optimize
        // 1. If self.kind() == KIND_VEC, use Vec::extend
        // 2. Make `reserve` inline-able
        for b in iter {
            self.reserve(1);
            self.put_u8(b);
        }
    }
}

impl<'a> Extend<&'a u8> for BytesMut {
    fn extend<T>(&mut self, iter: T)
    where
        T: IntoIterator<Item = &'a u8>,
    {
        self.extend(iter.into_iter().map(|b| *b))
    }
}

impl PartialEq<[u8]> for BytesMut {
    fn eq(&self, other: &[u8]) -> bool {
        &**self == other
    }
}

impl PartialOrd<[u8]> for BytesMut {
    fn partial_cmp(&self, other: &[u8]) -> Option<cmp::Ordering> {
        (**self).partial_cmp(other)
    }
}

impl PartialEq<BytesMut> for [u8] {
    fn eq(&self, other: &BytesMut) -> bool {
        *other == *self
    }
}

impl PartialOrd<BytesMut> for [u8] {
    fn partial_cmp(&self, other: &BytesMut) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self, other)
    }
}

impl PartialEq<str> for BytesMut {
    fn eq(&self, other: &str) -> bool {
        &**self == other.as_bytes()
    }
}

impl PartialOrd<str> for BytesMut {
    fn partial_cmp(&self, other: &str) -> Option<cmp::Ordering> {
        (**self).partial_cmp(other.as_bytes())
    }
}

impl PartialEq<BytesMut> for str {
    fn eq(&self, other: &BytesMut) -> bool {
        *other == *self
    }
}

impl PartialOrd<BytesMut> for str {
    fn partial_cmp(&self, other: &BytesMut) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self.as_bytes(), other)
    }
}

impl PartialEq<Vec<u8>> for BytesMut {
    fn eq(&self, other: &Vec<u8>) -> bool {
        *self == &other[..]
    }
}

impl PartialOrd<Vec<u8>> for BytesMut {
    fn partial_cmp(&self, other: &Vec<u8>) -> Option<cmp::Ordering> {
        (**self).partial_cmp(&other[..])
    }
}

impl PartialEq<BytesMut> for Vec<u8> {
    fn eq(&self, other: &BytesMut) -> bool {
        *other == *self
    }
}

impl PartialOrd<BytesMut> for Vec<u8> {
    fn partial_cmp(&self, other: &BytesMut) -> Option<cmp::Ordering> {
        other.partial_cmp(self)
    }
}

impl PartialEq<String> for BytesMut {
    fn eq(&self, other: &String) -> bool {
        *self == &other[..]
    }
}

impl PartialOrd<String> for BytesMut {
    fn partial_cmp(&self, other: &String) -> Option<cmp::Ordering> {
        (**self).partial_cmp(other.as_bytes())
    }
}

impl PartialEq<BytesMut> for String {
    fn eq(&self, other: &BytesMut) -> bool {
        *other == *self
    }
}

impl PartialOrd<BytesMut> for String {
    fn partial_cmp(&self, other: &BytesMut) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self.as_bytes(), other)
    }
}

impl<'a, T: ?Sized> PartialEq<&'a T> for BytesMut
where
    BytesMut: PartialEq<T>,
{
    fn eq(&self, other: &&'a T) -> bool {
        *self == **other
    }
}

impl<'a, T: ?Sized> PartialOrd<&'a T> for BytesMut
where
    BytesMut: PartialOrd<T>,
{
    fn partial_cmp(&self, other: &&'a T) -> Option<cmp::Ordering> {
        self.partial_cmp(*other)
    }
}

impl PartialEq<BytesMut> for &[u8] {
    fn eq(&self, other: &BytesMut) -> bool {
        *other == *self
    }
}

impl PartialOrd<BytesMut> for &[u8] {
    fn partial_cmp(&self, other: &BytesMut) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self, other)
    }
}

impl PartialEq<BytesMut> for &str {
    fn eq(&self, other: &BytesMut) -> bool {
        *other == *self
    }
}

impl PartialOrd<BytesMut> for &str {
    fn partial_cmp(&self, other: &BytesMut) -> Option<cmp::Ordering> {
        other.partial_cmp(self)
    }
}

impl PartialEq<BytesMut> for Bytes {
    fn eq(&self, other: &BytesMut) -> bool {
        &other[..] == &self[..]
    }
}

impl PartialEq<Bytes> for BytesMut {
    fn eq(&self, other: &Bytes) -> bool {
        &other[..] == &self[..]
    }
}

