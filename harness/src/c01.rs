//! C01: decoding never panics, nor does asking for any field.
use crate::lazy::Spec;
use crate::obs::*;
use binate::frame::Frame;

/// `core::str::from_utf8`: any result it can have.
fn from_utf8_any(v: &[u8]) -> Result<&str, std::str::Utf8Error> {
    if kani::any() {
        Ok(unsafe { std::str::from_utf8_unchecked(v) })
    } else {
        std::str::from_utf8_mut(&mut [0xFF]).map(|_| "").map_err(|e| e)
    }
}
/// `str::is_ascii`: any result.
fn is_ascii_any(_s: &str) -> bool {
    kani::any()
}

/// Frame::decode:
/// requires nothing: an input of any length, any bytes, in any chunks
/// ensures returns, and so does every accessor of the result
/// (the reads of `Buf` panic when they go past the end)
#[kani::proof]
#[kani::stub(std::str::from_utf8, from_utf8_any)]
#[kani::stub(str::is_ascii, is_ascii_any)]
#[kani::unwind(10)]
fn decode() {
    let mut a = Spec::any().reader();
    a.segmented = true;
    let r = Frame::decode(&mut a);
    kani::cover!(r.is_ok(), "accepts");
    kani::cover!(r.is_err(), "rejects");
    if let Ok(f) = r {
        let d = observe(&f);
        kani::cover!(d.ty == crate::spec::SETUP, "SETUP");
        kani::cover!(d.ty == crate::spec::RESUME_OK, "RESUME_OK");
        let p = match f {
            Frame::Setup(x) => x.payload(),
            Frame::Error(x) => {
                let _ = x.data_utf8();
                std::mem::forget(x);
                return;
            }
            Frame::RequestResponse(x) => x.payload(),
            Frame::RequestFnf(x) => x.payload(),
            Frame::RequestStream(x) => x.payload(),
            Frame::RequestChannel(x) => x.payload(),
            Frame::Payload(x) => x.payload(),
            f => return std::mem::forget(f),
        };
        let _ = (p.len(), p.is_empty(), p.has_metadata(), p.has_data());
        let _ = p.data_utf8().map(|s| s.len());
        let _ = p.metadata_utf8().map(|s| s.len());
        std::mem::forget(p);
    }
}
