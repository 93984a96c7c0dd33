//! C02: decoding what is encoded.
use crate::gen::*;
use crate::lazy::{Lazy, Spec, Written};
use crate::mk::{self, Args};
use crate::obs::*;
use crate::spec::*;
use crate::stubs::*;
use binate::frame::{Encode, Frame};
use bytes::{Buf, BytesMut};

/// An empty part may come back as an absent one.
fn sections(a: &Option<&[u8]>, b: &Option<&[u8]>) {
    match (a, b) {
        (Some(a), Some(b)) => same(a, b),
        (None, Some(b)) => assert!(b.len() == 0, "part is lost"),
        (Some(a), None) => assert!(a.len() == 0, "part comes out of nowhere"),
        (None, None) => (),
    }
}

/// ensures: `g` and `w` are equal, sections that are empty or absent aside
fn equal(g: &D<'_>, w: &D<'_>) {
    sections(&g.meta, &w.meta);
    sections(&g.data, &w.data);
    let mut g = *g;
    let mut w = *w;
    g.meta = None;
    w.meta = None;
    g.data = None;
    w.data = None;
    same_d(&g, &w);
}

/// Frame::decode(Frame::encode(f)@):
/// ensures result == Ok(g), g ~ f, and all bytes are consumed
fn back(f: &Frame, d: &D<'_>, ty: u8) {
    let mut b = BytesMut::new();
    f.encode(&mut b);
    let mut a = Lazy::of(&b);
    match Frame::decode(&mut a) {
        Ok(g) => {
            kani::cover!(true, "decodes");
            equal(&observe_as(&g, ty), d);
            assert!(a.remaining() == 0, "does not consume what was encoded");
            std::mem::forget(g);
        }
        Err(e) => {
            std::mem::forget(e);
            panic!("what was encoded does not decode")
        }
    }
}

/// of a frame made by the constructors and builders
fn made(ty: u8, mut s: Sym) {
    unsafe { TYPE = ty };
    bytes::model::set_loads();
    let (f, d) = mk::frame(&mut s, ty, Args::Valid);
    back(&f, &d, ty);
    std::mem::forget(f);
}

/// parse(f.encode()@) == Ok(g), g ~ f, and all bytes are consumed. With the contract of
/// Frame::decode, which is parse (C05, proved along with this), this is `back`.
fn back_by_contract(f: &Frame, d: &D<'_>, ty: u8) {
    let mut b = BytesMut::new();
    f.encode(&mut b);
    let a = Written::of(&b);
    match parse_as(&a, ty) {
        Ok(g) => {
            kani::cover!(true, "decodes");
            assert!((a.head() >> 10) as u8 == ty, "frame type is lost");
            equal(&g.d, d);
            assert!(g.used == a.len(), "does not consume what was encoded");
        }
        Err(_) => panic!("what was encoded does not decode"),
    }
}

/// With the feature `c02full`, the second decoding is done by the body.
fn again(f: &Frame, d: &D<'_>, ty: u8) {
    #[cfg(feature = "c02full")]
    {
        bytes::model::set_loads();
        back(f, d, ty);
    }
    #[cfg(not(feature = "c02full"))]
    back_by_contract(f, d, ty);
}

/// of a frame obtained by decoding
/// (and of which the header has the flags `bits` of `mask`)
fn decoded(ty: u8, mask: u16, bits: u16) {
    unsafe { TYPE = ty };
    let spec = Spec::any();
    let want = crate::c05::parse_ty(&spec, ty);
    kani::assume(want.is_ok() && spec.head() & mask == bits);
    let mut a = spec.reader();
    if let Ok(f) = Frame::decode(&mut a) {
        let d = observe_as(&f, ty);
        again(&f, &d, ty);
        std::mem::forget(f);
    }
}

macro_rules! made {
    ($($name:ident $ty:ident $sym:expr,)*) => { $(
        #[kani::proof]
        #[kani::stub(std::str::from_utf8, from_utf8_ok)]
        #[kani::stub(str::is_ascii, is_ascii_ok)]
        #[kani::stub(std::time::Duration::from_millis, from_millis_contract)]
        #[cfg_attr(feature = "header", kani::stub(binate::frame::visit::eat_flags, eat_flags_contract))]
        #[cfg_attr(feature = "header", kani::stub(binate::frame::visit::eat_stream_id, eat_sid_contract))]
        #[kani::unwind(26)]
        fn $name() { made($ty, $sym) }
    )* };
}
every_case!(made);

/// Everything that can be decoded.
macro_rules! every_decoded {
    ($m:ident) => {
        $m! {
            setup_plain SETUP M | B7, 0;
            setup_meta SETUP M | B7, M;
            setup_token SETUP M | B7, B7;
            setup_token_meta SETUP M | B7, M | B7;
            lease LEASE 0, 0;
            keepalive KEEPALIVE 0, 0;
            request_response REQUEST_RESPONSE 0, 0;
            request_fnf REQUEST_FNF 0, 0;
            request_stream REQUEST_STREAM 0, 0;
            request_channel REQUEST_CHANNEL 0, 0;
            request_n REQUEST_N 0, 0;
            cancel CANCEL 0, 0;
            payload PAYLOAD 0, 0;
            error ERROR 0, 0;
            metadata_push METADATA_PUSH 0, 0;
            resume RESUME 0, 0;
            resume_ok RESUME_OK 0, 0;
        }
    };
}

mod dec {
    use super::*;
    macro_rules! dec {
        ($($name:ident $ty:ident $mask:expr, $bits:expr;)*) => { $(
            #[kani::proof]
            #[kani::stub(std::str::from_utf8, from_utf8_ok)]
            #[kani::stub(str::is_ascii, is_ascii_ok)]
            #[kani::stub(std::time::Duration::from_millis, from_millis_contract)]
            #[cfg_attr(feature = "header", kani::stub(binate::frame::visit::eat_flags, eat_flags_contract))]
            #[cfg_attr(feature = "header", kani::stub(binate::frame::visit::eat_stream_id, eat_sid_contract))]
            #[kani::unwind(26)]
            fn $name() { decoded($ty, $mask, $bits) }
        )* };
    }
    every_decoded!(dec);
}
