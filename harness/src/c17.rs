//! C17: 24-bit lengths.
use binate::frame::{Encode, U24};
use bytes::BytesMut;

/// U24::into_u32(self), into_usize(self): ensures result == self@
/// encode(self, buf): ensures buf@ == old(buf)@ + the three big-endian bytes of self@
fn is(u: U24, v: u32) {
    assert!(u.into_u32() == v, "into_u32");
    assert!(u.into_usize() == v as usize, "into_usize");
    assert!(Encode::len(&u) == 3, "announced length");
    let i: usize = kani::any();
    kani::assume(i < 3);
    bytes::model::set_probe(i);
    let mut b = BytesMut::new();
    u.encode(&mut b);
    assert!(b.len() == 3, "encoded length");
    assert!(bytes::model::probed(&b) == (v >> (16 - 8 * i as u32)) as u8, "encoded byte");
}

/// U24::from_u32(v): requires v <= 0xFF_FFFF; ensures result@ == v
#[kani::proof]
#[kani::unwind(10)]
fn from_u32() {
    let v: u32 = kani::any();
    kani::assume(v <= 0xFF_FFFF);
    is(U24::from_u32(v), v);
}

/// U24::from_usize(v): requires v <= 0xFF_FFFF; ensures result@ == v
#[kani::proof]
#[kani::unwind(10)]
fn from_usize() {
    let v: usize = kani::any();
    kani::assume(v <= 0xFF_FFFF);
    is(U24::from_usize(v), v as u32);
}

/// U24::new(h, l): ensures result@ == h * 2^16 + l
#[kani::proof]
#[kani::unwind(10)]
fn new() {
    let (h, l): (u8, u16) = (kani::any(), kani::any());
    is(U24::new(h, l), (h as u32) << 16 | l as u32);
}

/// Both conversions in both directions, and equality.
#[kani::proof]
fn same() {
    let v: u32 = kani::any();
    let w: u32 = kani::any();
    kani::assume(v <= 0xFF_FFFF && w <= 0xFF_FFFF);
    assert!(U24::from_u32(v) == U24::from_usize(v as usize), "conversions differ");
    assert!((U24::from_u32(v) == U24::from_u32(w)) == (v == w), "equality");
    assert!(U24::MAX == 0xFF_FFFF && U24::MIN == 0, "limits");
}

/// Too large: panics.
mod rejects {
    use super::*;

    #[kani::proof]
    fn from_u32() {
        let v: u32 = kani::any();
        kani::assume(v > 0xFF_FFFF);
        let _ = U24::from_u32(v);
        panic!("ACCEPTED: too large for 24 bits");
    }

    #[kani::proof]
    fn from_usize() {
        let v: usize = kani::any();
        kani::assume(v > 0xFF_FFFF);
        let _ = U24::from_usize(v);
        panic!("ACCEPTED: too large for 24 bits");
    }
}
