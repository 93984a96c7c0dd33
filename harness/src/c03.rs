//! C03: the announced length is the encoded length, and encoding only appends.
use crate::c05::parse_ty;
use crate::gen::*;
use crate::lazy::Spec;
use crate::mk::{self, Args, Src};
use crate::spec::*;
use crate::stubs::*;
use binate::frame::{Encode, Frame, Version, U24};
use bytes::BytesMut;

/// <T as Encode>::encode(&self, buf):
/// ensures buf@ == old(buf)@ + s, |s| == self.len()
/// <T as Encode>::to_bytes(&self):
/// ensures result@ == s, for the s that encoding into an empty buffer appends
fn appends<T: Encode>(f: &T) {
    // what was there before
    let before = raw(OBJ);
    let l = f.len();
    assert!(f.is_empty() == (l == 0), "is_empty disagrees with len");
    // what is appended, at an arbitrary index
    let i: usize = kani::any();
    kani::assume(i < l);
    bytes::model::set_probe(i);
    let mut b = BytesMut::new();
    b.extend_from_slice(before);
    bytes::model::rebase(&mut b);
    f.encode(&mut b);
    kani::cover!(true, "encodes");
    assert!(b.len() == before.len() + l, "the announced length is not that which is encoded");
    if !bytes::model::only_appended(&b) {
        // rearranged: beyond the model
        bytes::model::limit()
    }
    let t = f.to_bytes();
    assert!(t.len() == l, "to_bytes has the wrong length");
    assert!(t[i] == bytes::model::probed(&b), "to_bytes is not what is encoded");
    std::mem::forget(b);
}

fn made(ty: u8, mut s: Sym) {
    let (f, _) = mk::frame(&mut s, ty, Args::Valid);
    appends(&f);
    std::mem::forget(f);
}

fn decoded(ty: u8) {
    unsafe { TYPE = ty };
    let spec = Spec::any();
    let want = parse_ty(&spec, ty);
    kani::assume(want.is_ok());
    let mut a = spec.reader();
    if let Ok(f) = Frame::decode(&mut a) {
        kani::cover!(true, "decodes");
        let l = f.len();
        let mut b = BytesMut::new();
        f.encode(&mut b);
        assert!(b.len() == l, "the announced length is not that which is encoded");
        std::mem::forget(f);
    }
}

macro_rules! made {
    ($($name:ident $ty:ident $sym:expr,)*) => { $(
        #[kani::proof]
        #[kani::stub(std::str::from_utf8, from_utf8_ok)]
        #[kani::stub(str::is_ascii, is_ascii_ok)]
        #[kani::unwind(26)]
        fn $name() { made($ty, $sym) }
    )* };
}
every_case!(made);

mod dec {
    use super::*;
    macro_rules! dec {
        ($($name:ident $ty:expr,)*) => { $(
            #[kani::proof]
            #[kani::stub(std::str::from_utf8, from_utf8_ok)]
            #[kani::stub(str::is_ascii, is_ascii_ok)]
            #[cfg_attr(feature = "header", kani::stub(binate::frame::visit::eat_flags, eat_flags_contract))]
            #[cfg_attr(feature = "header", kani::stub(binate::frame::visit::eat_stream_id, eat_sid_contract))]
            #[kani::unwind(26)]
            fn $name() { decoded($ty) }
        )* };
    }
    every_type!(dec);
}

mod parts {
    use super::*;

    #[kani::proof]
    #[kani::unwind(26)]
    fn version() {
        appends(&Version::new(kani::any(), kani::any()));
    }

    #[kani::proof]
    #[kani::unwind(26)]
    fn u24() {
        appends(&U24::new(kani::any(), kani::any()));
    }

    #[kani::proof]
    #[kani::unwind(26)]
    fn payload() {
        let mut s = Sym::default();
        let p = mk::payload(s.opt_blob(OBJ), s.opt_blob(OBJ));
        appends(&p);
        std::mem::forget(p);
    }
}
