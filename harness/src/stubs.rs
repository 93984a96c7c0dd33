//! Assumed contracts for standard-library functions whose loops run over
//! arbitrarily long data.
#![allow(dead_code)]
use crate::spec::*;
use binate::frame::FrameType;

/// `core::str::from_utf8`, restricted to inputs it accepts.
/// ensures result == Ok(s), s@ == v@
pub fn from_utf8_ok(v: &[u8]) -> Result<&str, std::str::Utf8Error> {
    Ok(unsafe { std::str::from_utf8_unchecked(v) })
}

/// `str::is_ascii`, restricted to inputs it accepts.
pub fn is_ascii_ok(_s: &str) -> bool {
    true
}

/// The frame type under consideration in this harness.
pub static mut TYPE: u8 = 0;

pub fn of_code(code: u8) -> Option<FrameType> {
    match code {
        SETUP => Some(FrameType::SETUP),
        LEASE => Some(FrameType::LEASE),
        KEEPALIVE => Some(FrameType::KEEPALIVE),
        REQUEST_RESPONSE => Some(FrameType::REQUEST_RESPONSE),
        REQUEST_FNF => Some(FrameType::REQUEST_FNF),
        REQUEST_STREAM => Some(FrameType::REQUEST_STREAM),
        REQUEST_CHANNEL => Some(FrameType::REQUEST_CHANNEL),
        REQUEST_N => Some(FrameType::REQUEST_N),
        CANCEL => Some(FrameType::CANCEL),
        PAYLOAD => Some(FrameType::PAYLOAD),
        ERROR => Some(FrameType::ERROR),
        METADATA_PUSH => Some(FrameType::METADATA_PUSH),
        RESUME => Some(FrameType::RESUME),
        RESUME_OK => Some(FrameType::RESUME_OK),
        0x3F => Some(FrameType::EXT),
        _ => None,
    }
}

/// Contract of `FrameType::from_bits` (proved as C16), for one type at a time.
/// requires bits >> 10 == TYPE (checked); ensures result == of_code(TYPE)
pub fn from_bits_contract(bits: u16) -> Option<FrameType> {
    let ty = unsafe { TYPE };
    assert!((bits >> 10) as u8 == ty, "looked up a frame type other than that in the header");
    of_code(ty)
}
/// Contract of `FrameType::from_value` (proved as C16), likewise.
pub fn from_value_contract(v: u16) -> Option<FrameType> {
    let ty = unsafe { TYPE };
    assert!(v == ty as u16, "looked up a frame type other than that in the header");
    of_code(ty)
}

/// `Duration::from_millis`, of which nothing is known except that different
/// arguments give different durations. (The accessors that call it are also
/// verified with the real one: `c07::times`.)
pub fn from_millis_contract(ms: u64) -> std::time::Duration {
    std::time::Duration::new(ms, 123_456_789)
}
/// Its inverse; `u64::MAX` for other durations.
pub fn as_millis(d: std::time::Duration) -> u64 {
    if d.subsec_nanos() == 123_456_789 {
        d.as_secs()
    } else {
        u64::MAX
    }
}

/// `frame::visit::eat_flags`, for headers that name the type of the harness
/// (proved as `header::flags`):
/// requires remaining >= 2
/// ensures the next two bytes are consumed, the type and the assigned flags returned;
/// or Unrecognized if there is no such type
pub fn eat_flags_contract<B: bytes::Buf>(
    b: &mut B,
) -> Result<(FrameType, binate::frame::Flags), binate::frame::DecodeError> {
    use binate::frame::{DecodeError, Flags};
    if b.remaining() < 2 {
        bytes::model::limit()
    }
    let v = b.get_u16();
    let t = unsafe { TYPE };
    if v >> 10 != t as u16 {
        bytes::model::limit()
    }
    match of_code(t) {
        // EXT may be rejected here or later
        Some(ty) if t != 0x3F || kani::any() => Ok((ty, Flags::from_bits_truncate(v))),
        _ => Err(DecodeError::UnrecognizedFrameType(t as u16)),
    }
}
/// `frame::visit::eat_stream_id` (proved as `header::stream_id`):
/// requires remaining >= 4
/// ensures the next four bytes are consumed, and returned without the highest bit
pub fn eat_sid_contract<B: bytes::Buf>(b: &mut B) -> Result<u32, binate::frame::DecodeError> {
    if b.remaining() < 4 {
        bytes::model::limit()
    }
    Ok(b.get_u32() & U31)
}
