//! The contracts of the functions that read a frame's header (`frame::visit`), which
//! the other harnesses use in place of their bodies.
use crate::gen::*;
use crate::lazy::Spec;
use crate::spec::*;
use crate::stubs::of_code;
use bytes::Buf;
use binate::frame::DecodeError;
use binate::verif::{eat_flags, eat_stream_id};

#[kani::proof]
#[kani::unwind(20)]
fn stream_id() {
    let spec = Spec::any();
    let n = spec.len();
    let v = if n >= 4 { spec.be(0, 4) as u32 } else { 0 };
    let mut a = spec.reader();
    a.segmented = kani::any();
    match eat_stream_id(&mut a) {
        Ok(id) => {
            kani::cover!(true, "reads");
            assert!(n >= 4, "reads what is not there");
            assert!(id == v & U31, "wrong stream ID");
            assert!(a.pos() == 4, "consumes the wrong number of bytes");
        }
        Err(e) => {
            assert!(n < 4, "fails for no reason");
            assert!(matches!(e, DecodeError::InComplete), "wrong error");
        }
    }
}

#[kani::proof]
#[kani::unwind(20)]
fn flags() {
    let spec = Spec::any();
    let n = spec.len();
    let v = if n >= 2 { spec.be(0, 2) as u16 } else { 0 };
    let mut a = spec.reader();
    a.segmented = kani::any();
    let t = (v >> 10) as u8;
    match eat_flags(&mut a) {
        Ok((ty, flags)) => {
            kani::cover!(true, "reads");
            assert!(n >= 2, "reads what is not there");
            assert!(of_code(t) == Some(ty), "wrong frame type");
            // the five lowest bits are not assigned
            assert!(flags.bits() == v & 0x3E0, "wrong flags");
            assert!(a.pos() == 2, "consumes the wrong number of bytes");
        }
        Err(DecodeError::InComplete) => assert!(n < 2, "fails for no reason"),
        Err(DecodeError::UnrecognizedFrameType(u)) => {
            assert!(n >= 2 && u == t as u16, "wrong frame type in the error");
            assert!(t == 0 || t > RESUME_OK, "does not recognize a frame type");
        }
        Err(_) => panic!("wrong error"),
    }
}
