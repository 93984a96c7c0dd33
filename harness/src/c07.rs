//! C07: frames report what they were built from.
//! Compiled without debug assertions, so that out-of-range arguments get through.
use crate::gen::*;
use crate::mk::{self, Args, Src};
use crate::obs::*;
use crate::spec::*;
use crate::stubs::*;
use binate::frame::codec::*;
use binate::frame::Frame;
use bytes::Bytes;

/// T::new(args) and SetupFrameBuilder:
/// ensures accessors(result) == (args limited to 31 or 63 bits)
fn reports(ty: u8, mut s: Sym) {
    let (f, d) = mk::frame(&mut s, ty, Args::Any);
    kani::cover!(true, "builds");
    same_d(&observe_as(&f, ty), &d);
    match f {
        Frame::RequestResponse(x) if ty == REQUEST_RESPONSE => parts(x.payload(), &d),
        Frame::RequestFnf(x) if ty == REQUEST_FNF => parts(x.payload(), &d),
        Frame::RequestStream(x) if ty == REQUEST_STREAM => parts(x.payload(), &d),
        Frame::RequestChannel(x) if ty == REQUEST_CHANNEL => parts(x.payload(), &d),
        Frame::Payload(x) if ty == PAYLOAD => parts(x.payload(), &d),
        Frame::Setup(x) if ty == SETUP => parts(x.payload(), &d),
        f => std::mem::forget(f),
    }
}

/// T::payload(self): ensures result has the parts of the frame
fn parts(p: binate::prelude::Payload, d: &D<'_>) {
    same_opt(&p.metadata().map(|b| &b[..]), &d.meta);
    same_opt(&p.data().map(|b| &b[..]), &d.data);
    std::mem::forget(p);
}

macro_rules! harness {
    ($($name:ident $ty:ident $sym:expr,)*) => { $(
        #[kani::proof]
        #[kani::stub(std::str::from_utf8, from_utf8_ok)]
        #[kani::stub(str::is_ascii, is_ascii_ok)]
        #[kani::stub(std::time::Duration::from_millis, from_millis_contract)]
        #[kani::unwind(20)]
        fn $name() { reports($ty, $sym) }
    )* };
}
every_case!(harness);

/// SetupFrameBuilder::set_*: from any state the builder can be in,
/// ensures only what is set is changed, whatever has been set before
fn independent(k: usize) {
    let mut s = Sym::default();
    let mut d = mk::default_setup();
    let mut b = SetupFrame::builder();
    let mut j = 0;
    while j < mk::SETTERS {
        if s.bool() {
            b = mk::set(&mut s, Args::Any, j, b, &mut d);
        }
        j += 1;
    }
    b = mk::set(&mut s, Args::Any, k, b, &mut d);
    let f = Frame::Setup(b.build());
    kani::cover!(true, "builds");
    same_d(&observe_as(&f, SETUP), &d);
    std::mem::forget(f);
}

mod setter {
    use super::*;
    macro_rules! setter {
        ($($name:ident $k:expr,)*) => { $(
            #[kani::proof]
            #[kani::stub(std::str::from_utf8, from_utf8_ok)]
            #[kani::stub(str::is_ascii, is_ascii_ok)]
            #[kani::stub(std::time::Duration::from_millis, from_millis_contract)]
            #[kani::unwind(20)]
            fn $name() { independent($k) }
        )* };
    }
    setter! {
        resume_flag 0, lease_flag 1, version 2, keepalive_interval 3, keepalive_timeout 4,
        resume_token 5, metadata_mimetype 6, data_mimetype 7, metadata 8, data 9,
    }
}

mod defaults {
    use super::*;

    #[kani::proof]
    #[kani::stub(std::str::from_utf8, from_utf8_ok)]
    #[kani::stub(str::is_ascii, is_ascii_ok)]
    #[kani::stub(std::time::Duration::from_millis, from_millis_contract)]
    #[kani::unwind(20)]
    fn setup() {
        let f = Frame::Setup(SetupFrame::builder().build());
        kani::cover!(true, "builds");
        same_d(&observe_as(&f, SETUP), &mk::default_setup());
        std::mem::forget(f);
    }
}

/// The accessors of times, with the real `Duration::from_millis`.
mod times {
    use super::*;

    fn is(d: std::time::Duration, ms: u32) {
        assert!(d.as_secs() == (ms / 1000) as u64, "wrong number of seconds");
        assert!(d.subsec_nanos() == ms % 1000 * 1_000_000, "wrong fraction of a second");
    }

    #[kani::proof]
    #[kani::unwind(20)]
    fn setup() {
        let (i, t): (u32, u32) = (kani::any(), kani::any());
        let f = SetupFrame::builder().set_keepalive_interval(i).set_keepalive_timeout(t).build();
        kani::cover!(true, "builds");
        if kani::any() {
            is(f.keepalive_interval(), i & U31);
        } else {
            is(f.keepalive_timeout(), t & U31);
        }
        std::mem::forget(f);
    }

    #[kani::proof]
    #[kani::unwind(20)]
    fn lease() {
        let t: u32 = kani::any();
        let f = LeaseFrame::new(t, 1, None);
        kani::cover!(true, "builds");
        is(f.ttl(), t & U31);
        std::mem::forget(f);
    }
}

/// requires the argument is too long; ensures a panic.
/// (The check wants every run to end in a panic before ACCEPTED.)
mod rejects {
    use super::*;

    fn text() -> String {
        let b = raw(OBJ);
        kani::assume(b.len() > 255);
        unsafe { String::from_raw_parts(b.as_ptr() as *mut u8, b.len(), b.len()) }
    }

    #[kani::proof]
    #[kani::unwind(20)]
    fn metadata_mimetype() {
        std::mem::forget(SetupFrame::builder().set_metadata_mimetype(text()));
        panic!("ACCEPTED: over-long metadata MIME type");
    }
    #[kani::proof]
    #[kani::unwind(20)]
    fn data_mimetype() {
        std::mem::forget(SetupFrame::builder().set_data_mimetype(text()));
        panic!("ACCEPTED: over-long data MIME type");
    }
    #[kani::proof]
    #[kani::unwind(20)]
    fn resume_token() {
        let b = raw(OBJ);
        kani::assume(b.len() > 65_535);
        std::mem::forget(SetupFrame::builder().set_resume_token(Bytes::from_static(b)));
        panic!("ACCEPTED: over-long token");
    }
}

/// MIME types that are not ASCII are reported as `None`.
/// `from_utf8` and `is_ascii` by their contracts: they depend on nothing but the bytes.
mod ascii {
    use super::*;

    static mut VALID: bool = false;
    static mut ASCII: bool = false;

    /// ensures Ok(s), s@ == v@, iff v@ is UTF-8
    fn from_utf8_contract(v: &[u8]) -> Result<&str, std::str::Utf8Error> {
        if unsafe { VALID } {
            Ok(unsafe { std::str::from_utf8_unchecked(v) })
        } else {
            std::str::from_utf8_mut(&mut [0xFF]).map(|_| "").map_err(|e| e)
        }
    }
    /// ensures result iff s@ is ASCII
    fn is_ascii_contract(_s: &str) -> bool {
        unsafe { ASCII }
    }

    #[kani::proof]
    #[kani::stub(std::str::from_utf8, from_utf8_contract)]
    #[kani::stub(str::is_ascii, is_ascii_contract)]
    #[kani::unwind(20)]
    fn mimetypes() {
        unsafe {
            VALID = kani::any();
            ASCII = VALID && kani::any();
        }
        let (t, v) = Sym::default().ascii(255);
        let meta = kani::any();
        let b = SetupFrame::builder();
        let f = if meta { b.set_metadata_mimetype(t) } else { b.set_data_mimetype(t) }.build();
        let got = if meta { f.metadata_mimetype() } else { f.data_mimetype() };
        kani::cover!(got.is_some(), "ASCII");
        kani::cover!(got.is_none(), "not ASCII");
        assert!(got.is_some() == unsafe { ASCII }, "MIME type reported although not ASCII, or not although it is");
        if let Some(s) = got {
            same(s.as_bytes(), v);
        }
        std::mem::forget(f);
    }
}
