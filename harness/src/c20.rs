//! C20: payloads.
use crate::gen::*;
use binate::{Payload, PayloadBuilder};
use bytes::Bytes;

type P = Option<&'static [u8]>;

fn part(p: Option<&Bytes>) -> Option<&[u8]> {
    match p {
        Some(b) => Some(&b[..]),
        None => None,
    }
}

/// One call of a setter with any bytes; what the payload must then have.
/// set_metadata(self, v): ensures result.metadata@ == Some(v@), result.data@ == self.data@
/// set_data(self, v):     ensures result.data@ == Some(v@), result.metadata@ == self.metadata@
fn set(b: PayloadBuilder, w: &mut (P, P)) -> PayloadBuilder {
    let v = raw(OBJ);
    if kani::any() {
        w.0 = Some(v);
        b.set_metadata(Bytes::from_static(v))
    } else {
        w.1 = Some(v);
        b.set_data(Bytes::from_static(v))
    }
}

fn check(p: Payload, w: (P, P)) {
    assert!(p.has_metadata() == w.0.is_some(), "has_metadata");
    assert!(p.has_data() == w.1.is_some(), "has_data");
    same_opt(&part(p.metadata()), &w.0);
    same_opt(&part(p.data()), &w.1);
    let n = w.0.map_or(0, |m| m.len()) + w.1.map_or(0, |m| m.len());
    assert!(p.len() == n, "wrong number of bytes");
    assert!(p.is_empty() == (n == 0), "is_empty");
    kani::cover!(n == 0, "empty");
    kani::cover!(n > 0, "not empty");
    let (m, d) = p.split();
    same_opt(&part(m.as_ref()), &w.0);
    same_opt(&part(d.as_ref()), &w.1);
    std::mem::forget((m, d));
}

/// From every state of the builder: none to two calls reach them all, one more is the step.
fn history(n: u8) {
    let mut w = (None, None);
    let mut b = if kani::any() { Payload::builder() } else { PayloadBuilder::new() };
    if n > 0 {
        b = set(b, &mut w);
    }
    if n > 1 {
        b = set(b, &mut w);
    }
    if n > 2 {
        b = set(b, &mut w);
    }
    check(b.build(), w);
}
#[kani::proof]
#[kani::unwind(4)]
fn no_calls() {
    let p = Payload::builder().build();
    assert!(!p.has_data() && !p.has_metadata() && p.data().is_none() && p.metadata().is_none(), "starts with parts");
    assert!(p.len() == 0 && p.is_empty(), "starts with bytes");
    let p = Payload::default();
    assert!(p.data().is_none() && p.metadata().is_none() && p.is_empty(), "starts with parts");
    let p = PayloadBuilder::new().build();
    assert!(p.data().is_none() && p.metadata().is_none() && p.is_empty(), "starts with parts");
}
#[kani::proof]
#[kani::unwind(4)]
fn one_call() {
    history(1)
}
#[kani::proof]
#[kani::unwind(4)]
fn two_calls() {
    history(2)
}
#[kani::proof]
#[kani::unwind(4)]
fn three_calls() {
    history(3)
}

/// Whether the bytes of the part looked at are UTF-8.
static mut VALID: bool = false;
static mut AT: *const u8 = std::ptr::null();
static mut LEN: usize = 0;

/// `core::str::from_utf8`: ensures Ok(s), s@ == v@, iff v@ is UTF-8
fn from_utf8_contract(v: &[u8]) -> Result<&str, std::str::Utf8Error> {
    unsafe {
        if v.as_ptr() != AT || v.len() != LEN {
            // other bytes: nothing is known
            if kani::any() {
                return Ok(std::str::from_utf8_unchecked(v));
            }
        } else if VALID {
            return Ok(std::str::from_utf8_unchecked(v));
        }
    }
    std::str::from_utf8_mut(&mut [0xFF]).map(|_| "").map_err(|e| e)
}

/// data_utf8(self), metadata_utf8(self):
/// ensures the part is absent: Ok(""); UTF-8: Ok(s), s@ == part@; not UTF-8: Err
#[kani::proof]
#[kani::stub(std::str::from_utf8, from_utf8_contract)]
#[kani::unwind(4)]
fn text() {
    let (meta, data): (P, P) = (if kani::any() { Some(raw(OBJ)) } else { None }, if kani::any() { Some(raw(OBJ)) } else { None });
    let mut b = Payload::builder();
    if let Some(m) = meta {
        b = b.set_metadata(Bytes::from_static(m));
    }
    if let Some(d) = data {
        b = b.set_data(Bytes::from_static(d));
    }
    let p = b.build();
    let of_meta: bool = kani::any();
    let part = if of_meta { meta } else { data };
    unsafe {
        VALID = kani::any();
        if let Some(v) = part {
            AT = v.as_ptr();
            LEN = v.len();
            kani::assume(v.len() > 0 || VALID);
        }
    }
    let got = if of_meta { p.metadata_utf8() } else { p.data_utf8() };
    kani::cover!(got.is_ok() && part.is_some(), "text");
    kani::cover!(got.is_err(), "not text");
    match (part, got) {
        (None, Ok(s)) => assert!(s.len() == 0, "an absent part has text"),
        (None, Err(_)) => panic!("an absent part has no text"),
        (Some(v), Ok(s)) => {
            assert!(unsafe { VALID }, "text of bytes that are not UTF-8");
            same(s.as_bytes(), v);
        }
        (Some(_), Err(_)) => assert!(!unsafe { VALID }, "no text although the bytes are UTF-8"),
    }
    std::mem::forget(p);
}
