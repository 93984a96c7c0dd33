//! C03 and C04: what encoding appends.
use crate::gen::*;
use crate::mk::{self, Args};
use crate::spec::*;
use crate::stubs::*;
use binate::frame::Encode;
use bytes::BytesMut;

/// The wire layout is determined by what the frame was built from.
/// The metadata length is there exactly when the frame carries metadata.
fn wire<'a>(d: &D<'a>) -> Lay<'a> {
    let mflag = (has_payload(d.ty) || d.ty == LEASE || d.ty == METADATA_PUSH) && d.meta.is_some();
    layout(d, mflag)
}

/// <T as Encode>::encode(&self, buf):
/// ensures buf@ == old(buf)@ + layout(self@)          (at an arbitrary index)
/// <T as Encode>::len(&self):
/// ensures result == layout(self@).total()
fn encodes(ty: u8, mut s: Sym) {
    let (f, d) = mk::frame(&mut s, ty, Args::Valid);
    let lay = wire(&d);
    let total = lay.total();
    let i: usize = kani::any();
    kani::assume(i < total);
    bytes::model::set_probe(i);
    let mut b = BytesMut::new();
    f.encode(&mut b);
    kani::cover!(true, "encodes");
    assert!(b.len() == total, "wrong number of bytes encoded");
    assert!(bytes::model::probed(&b) == lay.at(i), "wrong byte encoded");
    std::mem::forget(f);
}

macro_rules! harness {
    ($($name:ident $ty:ident $sym:expr,)*) => { $(
        #[kani::proof]
        #[kani::stub(std::str::from_utf8, from_utf8_ok)]
        #[kani::stub(str::is_ascii, is_ascii_ok)]
        #[kani::unwind(20)]
        fn $name() { encodes($ty, $sym) }
    )* };
}
every_case!(harness);
