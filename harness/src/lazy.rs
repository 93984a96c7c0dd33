//! An arbitrary input: a `Buf` that keeps exactly the trait's contract and nothing
//! else.
//!
//! * [`Spec`]: the specification is run first; it chooses the values it reads and
//!   notes where they are. Everything it does not read stays arbitrary, so together
//!   the choices range over every byte string of every length.
//! * [`Lazy`]: the same input as the code under proof reads it.
//! * [`Lazy::of`]: the input is what an encoder has appended to a buffer.
use crate::spec::In;
use bytes::{Buf, Bytes, BytesMut};
use std::cell::{Cell, RefCell};

pub const SLOTS: usize = 18;
const LOST: usize = 99;

/// The input as a sequence of values and parts.
#[derive(Clone, Copy)]
pub struct Input {
    n: usize,
    items: usize,
    width: [u8; SLOTS], // 0: a part
    value: [u64; SLOTS],
    ptr: [*const u8; SLOTS],
    len: [usize; SLOTS],
    after: [usize; SLOTS], // bytes left after the item
    // where bytes that belong to no item are; null: nowhere
    base: *const u8,
}

pub struct Spec(RefCell<Input>);

impl Spec {
    /// Any input at all.
    pub fn any() -> Spec {
        let a = crate::gen::blob();
        Spec(RefCell::new(Input {
            n: a.len(),
            items: 0,
            width: [0; SLOTS],
            value: kani::any(),
            ptr: [a.as_ptr(); SLOTS],
            len: [0; SLOTS],
            after: [0; SLOTS],
            base: a.as_ptr(),
        }))
    }

    /// The header, after it has been read.
    pub fn head(&self) -> u16 {
        self.0.borrow().value[1] as u16
    }

    pub fn reader(&self) -> Lazy {
        Lazy::new(*self.0.borrow())
    }
}

fn mask(v: u64, w: usize) -> u64 {
    if w < 8 {
        v & ((1u64 << (8 * w as u32)) - 1)
    } else {
        v
    }
}

impl<'a> In<'a> for Spec {
    fn len(&self) -> usize {
        self.0.borrow().n
    }
    fn be(&self, p: usize, w: usize) -> u64 {
        let mut i = self.0.borrow_mut();
        let k = i.items;
        i.items = k + 1;
        i.width[k] = w as u8;
        i.len[k] = w;
        i.after[k] = i.n - (p + w);
        i.value[k] = mask(i.value[k], w);
        i.value[k]
    }
    fn part(&self, p: usize, l: usize) -> &'a [u8] {
        let mut i = self.0.borrow_mut();
        let k = i.items;
        i.items = k + 1;
        i.after[k] = i.n - (p + l);
        i.len[k] = l;
        i.ptr[k] = i.base.wrapping_add(p);
        unsafe { std::slice::from_raw_parts(i.ptr[k], l) }
    }
}

/// What an encoder has appended to a buffer, as the specification reads it.
pub struct Written(RefCell<Lazy>);

impl Written {
    pub fn of(b: &BytesMut) -> Written {
        Written(RefCell::new(Lazy::of(b)))
    }
    /// The header as written.
    pub fn head(&self) -> u16 {
        let mut a = Lazy::new(self.0.borrow().i);
        a.get(4);
        a.get(2) as u16
    }
}

impl<'a> In<'a> for Written {
    fn len(&self) -> usize {
        self.0.borrow().i.n
    }
    fn be(&self, p: usize, w: usize) -> u64 {
        let mut a = self.0.borrow_mut();
        assert!(a.pos() == p, "MODEL-LIMIT: read out of order");
        if w == 3 {
            // may have been written as bytes or as a byte and two
            let (x, y) = (a.get(1), a.get(1));
            return x << 16 | y << 8 | a.get(1);
        }
        a.get(w)
    }
    fn part(&self, p: usize, k: usize) -> &'a [u8] {
        let mut a = self.0.borrow_mut();
        assert!(a.pos() == p, "MODEL-LIMIT: read out of order");
        if k == 0 {
            return &[];
        }
        let q = a.whole(k);
        unsafe { std::slice::from_raw_parts(q, k) }
    }
}

/// Contract of `bytes::Buf`:
/// remaining: ensures result == bytes not yet consumed
/// get_*:     requires width <= remaining (panics otherwise);
///            ensures result is the big-endian value of the next bytes, which are consumed
/// copy_to_bytes(k): requires k <= remaining (panics otherwise);
///            ensures result@ == the next k bytes, which are consumed
/// advance(k): requires k <= remaining (panics otherwise); ensures k bytes are consumed
/// chunk:     ensures result@ is a prefix of what remains, empty only if nothing remains,
///            the same until something is consumed
pub struct Lazy {
    i: Input,
    left: usize,
    // the next byte is byte `rel` of item `at`
    at: usize,
    rel: usize,
    /// whether chunks end at arbitrary places
    pub segmented: bool,
    chunk_end: Cell<usize>, // as a value of `left`
    pinned: Cell<bool>,
}

impl Lazy {
    fn new(i: Input) -> Lazy {
        Lazy {
            i,
            left: i.n,
            at: 0,
            rel: 0,
            segmented: false,
            chunk_end: Cell::new(usize::MAX),
            pinned: Cell::new(false),
        }
    }

    /// What has been appended to `b`, from its start on.
    pub fn of(b: &BytesMut) -> Lazy {
        let mut i = Input {
            n: b.len(),
            items: 0,
            width: [0; SLOTS],
            value: [0; SLOTS],
            ptr: [std::ptr::null(); SLOTS],
            len: [0; SLOTS],
            after: [0; SLOTS],
            base: std::ptr::null(),
        };
        let n = bytes::model::pieces(b);
        assert!(n <= SLOTS, "MODEL-LIMIT: too many pieces");
        let mut left = b.len();
        let mut k = 0;
        while k < SLOTS {
            if k < n {
                let (value, ptr, len) = bytes::model::piece(b, k);
                i.value[k] = value;
                i.width[k] = if len <= 8 && (ptr.is_null() || bytes::model::loads()) { len as u8 } else { 0 };
                i.ptr[k] = ptr;
                i.len[k] = len;
                left -= len;
                i.after[k] = left;
            }
            k += 1;
        }
        i.items = n;
        Lazy::new(i)
    }

    /// Bytes consumed so far.
    pub fn pos(&self) -> usize {
        self.i.n - self.left
    }

    fn skip_empty(&mut self) {
        let mut k = 0;
        while k < 2 {
            if self.at < self.i.items && self.i.len[self.at] == 0 {
                self.at += 1;
            }
            k += 1;
        }
    }

    fn get(&mut self, w: usize) -> u64 {
        assert!(self.left >= w, "reads past the end of the input");
        self.skip_empty();
        if self.at == LOST {
            bytes::model::limit()
        }
        if self.at >= self.i.items {
            // not read by the specification: arbitrary
            if self.pinned.get() {
                bytes::model::limit()
            }
            self.left -= w;
            return mask(kani::any(), w);
        }
        let have = self.i.width[self.at] as usize;
        if self.rel + w > have {
            // across items, or inside a part
            bytes::model::limit()
        }
        let v = mask(self.i.value[self.at] >> (8 * (have - self.rel - w)) as u32, w);
        self.rel += w;
        self.left = self.i.after[self.at] + (have - self.rel);
        if self.rel == have {
            self.rel = 0;
            self.at += 1;
        }
        v
    }

    /// Consumes a part as a whole.
    fn whole(&mut self, k: usize) -> *const u8 {
        self.skip_empty();
        if self.at >= self.i.items
            || self.rel != 0
            || self.i.ptr[self.at].is_null()
            || self.i.len[self.at] != k
        {
            bytes::model::limit()
        }
        let p = self.i.ptr[self.at];
        self.jump(k);
        p
    }

    fn jump(&mut self, k: usize) {
        self.skip_empty();
        if self.at < self.i.items && self.rel == 0 && self.i.len[self.at] == k {
            self.left = self.i.after[self.at];
            self.at += 1;
        } else {
            self.left -= k;
            if k > 0 && self.at < self.i.items {
                // does not end where an item ends: nothing known from here on
                self.at = LOST;
            }
        }
    }
}

impl Buf for Lazy {
    fn remaining(&self) -> usize {
        self.left
    }
    fn chunk(&self) -> &[u8] {
        if self.left == 0 {
            return &[];
        }
        if self.i.base.is_null() || self.at == LOST || self.rel != 0 {
            bytes::model::limit()
        }
        if !self.pinned.get() {
            // from now on the bytes are in memory
            self.pinned.set(true);
            let mut k = 0;
            while k < SLOTS {
                if k < self.i.items {
                    let w = self.i.width[k] as usize;
                    let p = self.i.base.wrapping_add(self.i.n - self.i.after[k] - self.i.len[k]);
                    let mut j = 0;
                    while j < 8 {
                        if j < w {
                            let v = (self.i.value[k] >> (8 * (w - 1 - j) as u32)) as u8;
                            kani::assume(unsafe { *p.wrapping_add(j) } == v);
                        }
                        j += 1;
                    }
                }
                k += 1;
            }
        }
        if self.chunk_end.get() >= self.left {
            let end: usize = if self.segmented { kani::any() } else { 0 };
            kani::assume(end < self.left);
            self.chunk_end.set(end);
        }
        unsafe {
            std::slice::from_raw_parts(
                self.i.base.wrapping_add(self.pos()),
                self.left - self.chunk_end.get(),
            )
        }
    }
    fn advance(&mut self, k: usize) {
        assert!(k <= self.left, "advances past the end of the input");
        self.jump(k);
    }
    fn copy_to_bytes(&mut self, k: usize) -> Bytes {
        assert!(k <= self.left, "copies past the end of the input");
        if self.i.base.is_null() {
            if k == 0 {
                return Bytes::new();
            }
            return bytes::model::view(self.whole(k), k);
        }
        let p = self.i.base.wrapping_add(self.pos());
        self.jump(k);
        bytes::model::view(p, k)
    }
    fn copy_to_slice(&mut self, dst: &mut [u8]) {
        let w = dst.len();
        assert!(w <= self.left, "copies past the end of the input");
        if w > 8 {
            bytes::model::limit()
        }
        if w == 2 || w == 4 || w == 8 {
            let v = self.get(w);
            let mut k = 0;
            while k < 8 {
                if k < w {
                    dst[k] = (v >> (8 * (w - 1 - k)) as u32) as u8;
                }
                k += 1;
            }
        } else {
            let mut k = 0;
            while k < 7 {
                if k < w {
                    dst[k] = self.get(1) as u8;
                }
                k += 1;
            }
        }
    }
    fn get_uint(&mut self, w: usize) -> u64 {
        assert!(w <= self.left, "reads past the end of the input");
        if w > 4 {
            bytes::model::limit()
        }
        let mut v = 0;
        let mut k = 0;
        while k < 4 {
            if k < w {
                v = v << 8 | self.get(1);
            }
            k += 1;
        }
        v
    }
    fn get_i8(&mut self) -> i8 {
        self.get(1) as i8
    }
    fn get_i16(&mut self) -> i16 {
        self.get(2) as i16
    }
    fn get_i32(&mut self) -> i32 {
        self.get(4) as i32
    }
    fn get_i64(&mut self) -> i64 {
        self.get(8) as i64
    }
    fn get_u16_le(&mut self) -> u16 {
        (self.get(2) as u16).swap_bytes()
    }
    fn get_u32_le(&mut self) -> u32 {
        (self.get(4) as u32).swap_bytes()
    }
    fn get_u64_le(&mut self) -> u64 {
        self.get(8).swap_bytes()
    }
    fn get_u8(&mut self) -> u8 {
        self.get(1) as u8
    }
    fn get_u16(&mut self) -> u16 {
        self.get(2) as u16
    }
    fn get_u32(&mut self) -> u32 {
        self.get(4) as u32
    }
    fn get_u64(&mut self) -> u64 {
        self.get(8)
    }
}
