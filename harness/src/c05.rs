//! C05 and C06: decoding is the specification's parse, for every input.
use crate::gen::*;
use crate::lazy::Spec;
use crate::obs::*;
use crate::spec::*;
use crate::stubs::*;
use binate::frame::{DecodeError, Frame};

pub fn same_err(got: &DecodeError, want: &E) {
    match (got, want) {
        (DecodeError::InComplete, E::Incomplete) => (),
        (DecodeError::UnrecognizedFrameType(g), E::Unrecognized(w)) => {
            assert!(g == w, "wrong unrecognized frame type")
        }
        (DecodeError::InvalidStreamId { found, .. }, E::Stream(w, _)) => {
            assert!(found == w, "wrong stream ID in the error");
        }
        _ => panic!("wrong kind of decode error"),
    }
}

/// The specification on an input of which the header names the type `ty`.
pub fn parse_ty<'a>(b: &Spec, ty: u8) -> Result<Parsed<'a>, E> {
    if b.len() < 6 {
        return Err(E::Incomplete);
    }
    let stream = b.be(0, 4) as u32 & U31;
    let head = b.be(4, 2) as u16;
    kani::assume(head >> 10 == ty as u16);
    parse_rest(b, ty, stream, head, 6)
}

/// Frame::decode:
/// requires the header names the type `ty`
/// ensures result ~ parse(input@); Ok: exactly the bytes of the frame are consumed
fn decodes(ty: u8) {
    unsafe { TYPE = ty };
    let spec = Spec::any();
    let want = parse_ty(&spec, ty);
    let mut a = spec.reader();
    a.segmented = cfg!(feature = "c06");
    let got = Frame::decode(&mut a);
    match (&got, &want) {
        (Ok(f), Ok(p)) => {
            kani::cover!(true, "accepts");
            let d = observe_as(f, ty);
            same_d(&d, &p.d);
            assert!(a.pos() == p.used, "wrong number of bytes consumed");
        }
        (Err(g), Err(w)) => {
            kani::cover!(true, "rejects");
            same_err(&g, w)
        }
        (Ok(_), Err(_)) => panic!("accepts what is not a frame"),
        (Err(_), Ok(_)) => panic!("rejects a frame"),
    }
    std::mem::forget(got);
}

/// The same for a header that names no frame type, or EXT.
fn rejects(ty: u8) {
    unsafe { TYPE = ty };
    let spec = Spec::any();
    let want = parse_ty(&spec, ty);
    let mut a = spec.reader();
    a.segmented = cfg!(feature = "c06");
    let got = Frame::decode(&mut a);
    match (&got, &want) {
        (Err(g), Err(w)) => {
            kani::cover!(true, "rejects");
            same_err(&g, w)
        }
        _ => panic!("accepts what is not a frame"),
    }
    std::mem::forget(got);
}

macro_rules! harness {
    ($($name:ident $ty:expr,)*) => { $(
        #[kani::proof]
        #[kani::stub(std::str::from_utf8, from_utf8_ok)]
        #[kani::stub(str::is_ascii, is_ascii_ok)]
        #[kani::stub(std::time::Duration::from_millis, from_millis_contract)]
        #[cfg_attr(feature = "header", kani::stub(binate::frame::visit::eat_flags, eat_flags_contract))]
        #[cfg_attr(feature = "header", kani::stub(binate::frame::visit::eat_stream_id, eat_sid_contract))]
        #[kani::unwind(20)]
        fn $name() { decodes($ty) }
    )* };
}
every_type!(harness);

#[kani::proof]
#[cfg_attr(feature = "header", kani::stub(binate::frame::visit::eat_flags, eat_flags_contract))]
#[cfg_attr(feature = "header", kani::stub(binate::frame::visit::eat_stream_id, eat_sid_contract))]
#[kani::unwind(20)]
fn extension() {
    rejects(0x3F)
}

#[kani::proof]
#[cfg_attr(feature = "header", kani::stub(binate::frame::visit::eat_flags, eat_flags_contract))]
#[cfg_attr(feature = "header", kani::stub(binate::frame::visit::eat_stream_id, eat_sid_contract))]
#[kani::unwind(20)]
fn unassigned() {
    let ty: u8 = kani::any();
    kani::assume(ty < 0x3F && (ty == 0 || ty > RESUME_OK));
    rejects(ty)
}
