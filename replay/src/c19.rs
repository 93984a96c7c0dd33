//! C19 on the real code.
#[allow(unused_imports)]
use crate::{eq, holds};
use crate::rng::Rng;
use crate::Outcome;
use binate::frame::DecodeError;
use binate::Error;
use std::error::Error as StdError;

pub const SINGLE: bool = false;
pub const CASES: u64 = u64::MAX;

fn ask(e: &Error) -> (Vec<usize>, bool, bool, bool) {
    let q = [
        e.is_invalid_setup(), e.is_unsupported_setup(), e.is_rejected_setup(), e.is_rejected_resume(),
        e.is_connection_error(), e.is_connection_close(), e.is_application_error(), e.is_rejected(),
        e.is_cancel(), e.is_invalid(),
    ];
    ((0..10).filter(|k| q[*k]).collect(), e.is_protocol(), e.is_setup(), e.is_decode())
}

#[cfg(binate_verif = "errors")]
fn protocol(r: &mut Rng) -> Outcome {
    use binate::Code::{self, *};
    const CODES: [(Code, u32, &str); 10] = [
        (InvalidSetup, 1, "INVALID_SETUP"), (UnsupportedSetup, 2, "UNSUPPORTED_SETUP"),
        (RejectedSetup, 3, "REJECTED_SETUP"), (RejectedResume, 4, "REJECTED_RESUME"),
        (ConnectionError, 0x101, "CONNECTION_ERROR"), (ConnectionClose, 0x102, "CONNECTION_CLOSE"),
        (ApplicationError, 0x201, "APPLICATION_ERROR"), (Rejected, 0x202, "REJECTED"),
        (Canceled, 0x203, "CANCELED"), (Invalid, 0x204, "INVALID"),
    ];
    let k = r.below(10);
    let (c, v, name) = CODES[k];
    let source = if r.chance(2) { Some((0..r.below(20)).map(|_| char::from(32 + r.below(95) as u8)).collect::<String>()) } else { None };
    r.log.push(format!("{:?} {:?}", c, source));
    eq!(c as u32, v, "value of {:?}", c);
    let e = binate::verif::protocol_error(c, source.clone());
    eq!(ask(&e), (vec![k], true, k < 3, false), "answers of {:?}", c);
    let mut text = format!("{} (0x{:08x})", name, v);
    if let Some(s) = &source {
        text += ": ";
        text += s;
    }
    eq!(e.to_string(), text, "text of {:?}", c);
    eq!(e.source().map(|s| s.to_string()), source, "source of {:?}", c);
    Ok(format!("{:?}", c))
}
#[cfg(not(binate_verif = "errors"))]
fn protocol(r: &mut Rng) -> Outcome {
    decode(r)
}

fn decode(r: &mut Rng) -> Outcome {
    let d = match r.below(3) {
        0 => DecodeError::InComplete,
        1 => DecodeError::UnrecognizedFrameType(r.int(16) as u16),
        _ => DecodeError::InvalidStreamId { expected: "non-zero", found: r.int(32) as u32 },
    };
    r.log.push(format!("{:?}", d));
    let text = d.to_string();
    match &d {
        DecodeError::UnrecognizedFrameType(v) => {
            holds!(text.ends_with(&format!(" {:#x}", v)), "text of {:?} is {:?}", d, text)
        }
        DecodeError::InvalidStreamId { found, .. } => {
            holds!(text.contains(&format!(" {}", found)) && text.contains("non-zero"), "text of {:?} is {:?}", d, text)
        }
        _ => (),
    }
    let e: Error = d.clone().into();
    eq!(ask(&e), (vec![], false, false, true), "answers of {:?}", d);
    eq!(e.source().map(|s| s.to_string()), Some(text.clone()), "source of {:?}", d);
    holds!(e.to_string().ends_with(&format!(": {}", text)), "text of the error from {:?} is {:?}", d, e.to_string());
    Ok("decode error".into())
}

pub fn case(r: &mut Rng, case: u64) -> Outcome {
    match case % 3 {
        0 => decode(r),
        1 => protocol(r),
        _ => {
            use std::io::ErrorKind::*;
            let kind = [NotFound, PermissionDenied, ConnectionReset, UnexpectedEof, Other, TimedOut, InvalidData][r.below(7)];
            let custom = r.chance(2);
            let i = if custom { std::io::Error::new(kind, format!("x{}", case)) } else { kind.into() };
            r.log.push(format!("{:?}", i));
            let text = i.to_string();
            let e: Error = i.into();
            eq!(ask(&e), (vec![], false, false, false), "answers of an I/O error");
            match e.source().and_then(|s| s.downcast_ref::<std::io::Error>()) {
                Some(s) => eq!((s.kind(), s.to_string()), (kind, text.clone()), "source"),
                None => return Err("the source is not the I/O error".into()),
            }
            holds!(e.to_string().ends_with(&format!(": {}", text)), "text is {:?}", e.to_string());
            Ok("I/O error".into())
        }
    }
}
