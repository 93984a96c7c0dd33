//! C16 on the real code: every code, header and flag word.
#[allow(unused_imports)]
use crate::{eq, holds};
use crate::rng::Rng;
use crate::Outcome;
use binate::frame::{Flags, FrameType};
use FrameType::*;

pub const SINGLE: bool = false;
pub const CASES: u64 = 65536;

const TYPES: [(FrameType, u16); 15] = [
    (SETUP, 1), (LEASE, 2), (KEEPALIVE, 3), (REQUEST_RESPONSE, 4), (REQUEST_FNF, 5),
    (REQUEST_STREAM, 6), (REQUEST_CHANNEL, 7), (REQUEST_N, 8), (CANCEL, 9), (PAYLOAD, 10),
    (ERROR, 11), (METADATA_PUSH, 12), (RESUME, 13), (RESUME_OK, 14), (EXT, 63),
];

fn of(v: u16) -> Option<FrameType> {
    TYPES.iter().find(|t| t.1 == v).map(|t| t.0)
}

pub fn case(r: &mut Rng, case: u64) -> Outcome {
    let v = case as u16;
    r.log.push(format!("{:#x}", v));
    eq!(FrameType::from_value(v), of(v), "from_value({:#x})", v);
    eq!(FrameType::from_bits(v), of(v >> 10), "from_bits({:#x})", v);
    if let Some(t) = of(v) {
        eq!(t.value(), v, "value of {:?}", t);
        eq!(t.bits(), v << 10, "bits of {:?}", t);
    }
    for f in [Flags::from_bits_truncate(v), unsafe { Flags::from_bits_unchecked(v) }] {
        for (name, got, bit) in [
            ("ignore", f.is_ignore(), 0x200u16),
            ("metadata", f.is_metadata(), 0x100),
            ("follows", f.is_follows(), 0x80),
            ("resume", f.is_resume(), 0x80),
            ("respond", f.is_respond(), 0x80),
            ("complete", f.is_complete(), 0x40),
            ("lease", f.is_lease(), 0x40),
            ("next", f.is_next(), 0x20),
        ] {
            eq!(got, v & bit != 0, "is_{} of {:#x}", name, v);
        }
    }
    for (f, bit) in [
        (Flags::IGNORE, 0x200), (Flags::METADATA, 0x100), (Flags::FOLLOWS, 0x80),
        (Flags::RESUME, 0x80), (Flags::RESPOND, 0x80), (Flags::COMPLETE, 0x40),
        (Flags::LEASE, 0x40), (Flags::NEXT, 0x20),
    ] {
        eq!(f.bits(), bit, "flag {:?}", f);
    }
    Ok(format!("{:?}", of(v >> 10)))
}
