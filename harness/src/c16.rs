//! C16: frame types and flags. Every code, header and flag word.
use crate::spec::*;
use crate::stubs::of_code;
use binate::frame::{Flags, FrameType};

fn code_of(t: FrameType) -> u16 {
    match t {
        FrameType::SETUP => 1,
        FrameType::LEASE => 2,
        FrameType::KEEPALIVE => 3,
        FrameType::REQUEST_RESPONSE => 4,
        FrameType::REQUEST_FNF => 5,
        FrameType::REQUEST_STREAM => 6,
        FrameType::REQUEST_CHANNEL => 7,
        FrameType::REQUEST_N => 8,
        FrameType::CANCEL => 9,
        FrameType::PAYLOAD => 10,
        FrameType::ERROR => 11,
        FrameType::METADATA_PUSH => 12,
        FrameType::RESUME => 13,
        FrameType::RESUME_OK => 14,
        FrameType::EXT => 0x3F,
        _ => panic!("a frame type the protocol does not have"),
    }
}

fn assigned(v: u16) -> bool {
    (v >= 1 && v <= 14) || v == 0x3F
}

/// FrameType::from_value(v): ensures Some(t), code(t) == v, iff v is assigned
/// FrameType::value(t): ensures result == code(t)
/// FrameType::bits(t): ensures result == code(t) << 10
#[kani::proof]
fn from_value() {
    let v: u16 = kani::any();
    match FrameType::from_value(v) {
        Some(t) => {
            kani::cover!(true, "known");
            assert!(assigned(v), "unassigned code is looked up");
            assert!(code_of(t) == v, "wrong type for the code");
            assert!(t.value() == v, "type has the wrong code");
            assert!(t.bits() == v << 10, "type has the wrong header bits");
        }
        None => {
            kani::cover!(true, "unknown");
            assert!(!assigned(v), "assigned code is not looked up");
        }
    }
}

/// FrameType::from_bits(h): ensures Some(t), code(t) == h >> 10, iff h >> 10 is assigned
#[kani::proof]
fn from_bits() {
    let h: u16 = kani::any();
    let v = h >> 10;
    match FrameType::from_bits(h) {
        Some(t) => {
            kani::cover!(true, "known");
            assert!(assigned(v), "header of an unassigned code is looked up");
            assert!(code_of(t) == v, "wrong type for the header");
            assert!(FrameType::from_value(t.value()) == Some(t), "look-ups are not inverse");
            assert!(FrameType::from_bits(t.bits()) == Some(t), "look-ups are not inverse");
        }
        None => assert!(!assigned(v), "header of an assigned code is not looked up"),
    }
}

/// The types themselves, by name.
#[kani::proof]
fn names() {
    let v: u8 = kani::any();
    if let Some(t) = of_code(v) {
        assert!(t.value() == v as u16, "type has the wrong code");
        assert!(t.bits() == (v as u16) << 10, "type has the wrong header bits");
        assert!(FrameType::from_value(v as u16) == Some(t), "wrong type for the code");
        let low: u16 = kani::any();
        let h = (v as u16) << 10 | (low & 0x3FF);
        assert!(FrameType::from_bits(h) == Some(t), "wrong type for the header");
    }
}

/// Flags::is_*(f): ensures result iff the protocol's bit is set in f@
#[kani::proof]
fn flags() {
    let w: u16 = kani::any();
    // as the decoder makes them, and with bits that are no flags
    let f = if kani::any() { Flags::from_bits_truncate(w) } else { unsafe { Flags::from_bits_unchecked(w) } };
    kani::cover!(f.is_next(), "NEXT");
    assert!(f.is_ignore() == (w & 0x200 != 0), "IGNORE");
    assert!(f.is_metadata() == (w & M != 0), "METADATA");
    assert!(f.is_follows() == (w & B7 != 0), "FOLLOWS");
    assert!(f.is_resume() == (w & B7 != 0), "RESUME");
    assert!(f.is_respond() == (w & B7 != 0), "RESPOND");
    assert!(f.is_complete() == (w & B6 != 0), "COMPLETE");
    assert!(f.is_lease() == (w & B6 != 0), "LEASE");
    assert!(f.is_next() == (w & B5 != 0), "NEXT");
    assert!(f.bits() & 0x3E0 == w & 0x3E0, "flag bits");
}

/// Each flag's constant is the protocol's bit.
#[kani::proof]
fn constants() {
    assert!(Flags::IGNORE.bits() == 0x200 && Flags::METADATA.bits() == M, "IGNORE, METADATA");
    assert!(Flags::FOLLOWS.bits() == B7 && Flags::RESUME.bits() == B7 && Flags::RESPOND.bits() == B7, "bit 7");
    assert!(Flags::COMPLETE.bits() == B6 && Flags::LEASE.bits() == B6, "bit 6");
    assert!(Flags::NEXT.bits() == B5, "NEXT");
}
