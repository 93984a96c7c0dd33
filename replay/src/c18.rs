//! C18 on the real code.
#[allow(unused_imports)]
use crate::{eq, holds};
use crate::rng::Rng;
use crate::Outcome;
use binate::frame::{Encode, Version};
use bytes::BytesMut;

pub const SINGLE: bool = false;
pub const CASES: u64 = u64::MAX;

pub fn case(r: &mut Rng, _: u64) -> Outcome {
    let p = (r.int(16) as u16, r.int(16) as u16);
    let mut q = (r.int(16) as u16, r.int(16) as u16);
    match r.below(4) {
        0 => q.0 = p.0,
        1 => q.1 = p.1,
        2 => q = if r.chance(2) { p } else { (p.0.wrapping_add(1), p.1) },
        _ => (),
    }
    r.log.push(format!("{:?} {:?}", p, q));
    let (a, b) = (Version::new(p.0, p.1), Version::new(q.0, q.1));
    eq!(a.cmp(&b), p.cmp(&q), "cmp of {:?} and {:?}", p, q);
    eq!(a.partial_cmp(&b), p.partial_cmp(&q), "partial_cmp of {:?} and {:?}", p, q);
    eq!((a < b, a <= b, a > b, a >= b, a == b, a != b), (p < q, p <= q, p > q, p >= q, p == q, p != q), "operators");
    eq!(a.max(b), if p > q { a } else { b }, "max");
    eq!(a.min(b), if p <= q { a } else { b }, "min");
    eq!((a.major(), a.minor()), p, "numbers");
    eq!(format!("{}", a), format!("{}.{}", p.0, p.1), "text");
    let mut w = BytesMut::new();
    a.encode(&mut w);
    eq!(w[..], ((p.0 as u32) << 16 | p.1 as u32).to_be_bytes()[..], "encoded");
    eq!(Encode::len(&a), 4, "length");
    Ok(format!("{:?}", p.cmp(&q)))
}
