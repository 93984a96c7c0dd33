//! C17 on the real code.
#[allow(unused_imports)]
use crate::{eq, holds};
use crate::rng::Rng;
use crate::{panics, Outcome};
use binate::frame::{Encode, U24};
use bytes::BytesMut;

pub const SINGLE: bool = false;
pub const CASES: u64 = u64::MAX;

fn is(u: U24, v: u32, what: &str) -> Result<(), String> {
    eq!(u.into_u32(), v, "{}({}).into_u32()", what, v);
    eq!(u.into_usize(), v as usize, "{}({}).into_usize()", what, v);
    eq!(u.len(), 3, "length");
    let mut b = BytesMut::new();
    u.encode(&mut b);
    eq!(b[..], v.to_be_bytes()[1..], "encoded {}", v);
    Ok(())
}

pub fn case(r: &mut Rng, case: u64) -> Outcome {
    let v = if case < 1 << 24 && r.chance(2) { case } else { r.int(64) };
    r.log.push(format!("{:#x}", v));
    if v <= 0xFF_FFFF {
        is(U24::from_u32(v as u32), v as u32, "from_u32")?;
        is(U24::from_usize(v as usize), v as u32, "from_usize")?;
        is(U24::new((v >> 16) as u8, v as u16), v as u32, "new")?;
        return Ok("fits".into());
    }
    if let Ok(w) = <u32 as std::convert::TryFrom<u64>>::try_from(v) {
        holds!(panics(|| U24::from_u32(w)), "from_u32({}) is accepted", w);
    }
    holds!(panics(|| U24::from_usize(v as usize)), "from_usize({}) is accepted", v);
    Ok("too large".into())
}
