//! C01-C07 on concrete inputs.
use crate::mk::{self, Args, Src};
use crate::obs::*;
use crate::rng::*;
use crate::spec::*;
use crate::{eq, holds, Outcome};
use binate::frame::{DecodeError, Encode, Frame};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use std::collections::VecDeque;

pub const SINGLE: bool = false;
pub const CASES: u64 = u64::MAX;

/// The bytes of a layout.
fn wire(d: &D<'_>, mflag: bool) -> Vec<u8> {
    let l = layout(d, mflag);
    (0..l.total()).map(|i| l.at(i)).collect()
}

/// Some input: a frame of the wire format, broken or not.
fn input(r: &mut Rng) -> Vec<u8> {
    let ty = 1 + r.below(14) as u8;
    let (_, mut d) = mk::frame(r, ty, Args::Valid);
    r.log.clear();
    if r.chance(4) {
        d.stream = r.int(31) as u32;
    }
    let m = match r.below(4) {
        0 => r.chance(2),
        _ => d.meta.is_some(),
    };
    let mut v = wire(&d, m);
    match r.below(8) {
        0 => v.truncate(r.below(v.len() + 1)),
        1 => v.truncate(v.len().min(30) - r.below(v.len().min(30) + 1).min(v.len().min(30))),
        2 => {
            let i = r.below(v.len());
            v[i] ^= 1 << r.below(8);
        }
        3 => {
            let i = r.below(v.len().min(30));
            v[i] = r.next() as u8;
        }
        4 => {
            let n = r.len(100);
            v.extend(r.bytes(n));
        }
        5 => {
            // any flags, any type
            v[4] = (v[4] & 0xFC) | (r.next() as u8 & 3);
            v[5] = r.next() as u8;
            if r.chance(4) {
                v[4] = r.next() as u8;
            }
            if r.chance(4) {
                v[0] |= 0x80;
            }
        }
        6 => {
            // a length that does not fit, or fits exactly
            for _ in 0..2 {
                let i = 4 + r.below(v.len() - 4);
                v[i] = r.int(8) as u8;
            }
        }
        _ => (),
    }
    if r.chance(2) {
        let n = r.len(40);
        v = r.bytes(n);
    }
    v
}

/// A buffer in pieces, of which only the required methods are known.
#[derive(Clone)]
struct Pieces(VecDeque<Bytes>);

impl Buf for Pieces {
    fn remaining(&self) -> usize {
        self.0.iter().map(|b| b.len()).sum()
    }
    fn chunk(&self) -> &[u8] {
        match self.0.front() {
            Some(b) => &b[..],
            None => &[],
        }
    }
    fn advance(&mut self, mut n: usize) {
        while n > 0 {
            let f = self.0.front_mut().expect("advance past the end");
            let k = f.len().min(n);
            f.advance(k);
            n -= k;
            if f.is_empty() {
                self.0.pop_front();
            }
        }
    }
}

fn pieces(r: &mut Rng, v: &[u8]) -> Pieces {
    let mut q = VecDeque::new();
    let mut i = 0;
    let small = 1 + r.below(8);
    while i < v.len() {
        let k = if r.chance(6) { r.below(v.len() - i) + 1 } else { r.below(small) + 1 };
        let k = k.min(v.len() - i);
        q.push_back(Bytes::copy_from_slice(&v[i..i + k]));
        i += k;
    }
    Pieces(q)
}

fn err(e: &DecodeError) -> String {
    format!("{:?}", e)
}

fn agrees(got: &Result<Frame, DecodeError>, want: &Result<Parsed<'_>, E>) -> Result<(), String> {
    match (got, want) {
        (Ok(f), Ok(p)) => {
            let d = observe(f);
            // the accessors report a MIME type only if it is ASCII
            let mut want = p.d;
            for m in [&mut want.mm, &mut want.dm] {
                if !m.is_ascii() {
                    *m = &[];
                }
            }
            eq!(d, want, "decoded frame");
        }
        (Err(g), Err(w)) => {
            let ok = match (g, w) {
                (DecodeError::InComplete, E::Incomplete) => true,
                (DecodeError::UnrecognizedFrameType(g), E::Unrecognized(w)) => g == w,
                (DecodeError::InvalidStreamId { found, .. }, E::Stream(w, _)) => found == w,
                _ => false,
            };
            holds!(ok, "decode error: got {:?}, expected {:?}", g, w);
        }
        (Ok(f), Err(w)) => return Err(format!("accepted as {:?}, expected {:?}", f, w)),
        (Err(g), Ok(p)) => return Err(format!("rejected with {:?}, expected {:?}", g, p.d)),
    }
    Ok(())
}

fn kind(p: &Result<Parsed<'_>, E>) -> String {
    match p {
        Ok(p) => format!(
            "type {} flags {:#x}{}{}{}",
            p.d.ty,
            p.d.flags,
            if p.mflag { " M" } else { "" },
            if len(&p.d.meta) > 0 { " metadata" } else { "" },
            if len(&p.d.data) > 0 { " data" } else { "" }
        ),
        Err(E::Incomplete) => "incomplete".into(),
        Err(E::Unrecognized(_)) => "unrecognized".into(),
        Err(E::Stream(_, _)) => "stream ID".into(),
    }
}

/// Equal, but an empty metadata or data section may come back as absent.
fn same_frame(got: &D<'_>, want: &D<'_>) -> Result<(), String> {
    let mut g = *got;
    if g.meta.is_none() && want.meta.map_or(false, |m| m.is_empty()) {
        g.meta = want.meta;
    }
    if g.data.is_none() && want.data.map_or(false, |m| m.is_empty()) {
        g.data = want.data;
    }
    eq!(g, *want, "frame decoded from the encoded frame");
    Ok(())
}

/// The frame again, encoded and decoded.
fn again(f: &Frame, d: &D<'_>) -> Result<(), String> {
    let mut b = BytesMut::new();
    f.encode(&mut b);
    let mut b = b.freeze();
    match Frame::decode(&mut b) {
        Ok(g) => {
            same_frame(&observe(&g), d)?;
            eq!(b.remaining(), 0, "bytes left after the frame");
            Ok(())
        }
        Err(e) => Err(format!("encoded frame does not decode: {:?}", e)),
    }
}

fn lengths<T: Encode>(r: &mut Rng, f: &T) -> Result<(), String> {
    let mut plain = BytesMut::new();
    f.encode(&mut plain);
    eq!(Encode::len(f), plain.len(), "announced length");
    eq!(Encode::is_empty(f), plain.is_empty(), "is_empty");
    let n = r.len(20);
    let before = r.bytes(n);
    let mut b = BytesMut::from(&before[..]);
    f.encode(&mut b);
    holds!(b.len() >= n && b[..n] == before[..], "bytes in front of the frame changed");
    holds!(b[n..] == plain[..], "bytes appended depend on what is in the buffer");
    holds!(f.to_bytes()[..] == plain[..], "to_bytes differs from encode");
    Ok(())
}

fn touch(f: Frame) {
    use binate::frame::Frame::*;
    let _ = format!("{:?}", observe(&f));
    let _ = format!("{:?} {}", f, f == f.clone());
    let mime = |m: Option<&str>| m.map(|m| m.len());
    match f {
        Setup(x) => {
            let _ = (mime(x.metadata_mimetype()), mime(x.data_mimetype()), x.is_lease());
            let _ = (x.resume_token().cloned(), x.is_resume());
            let _ = x.payload().len();
        }
        Error(x) => {
            let _ = x.data_utf8().map(|s| s.len());
        }
        RequestResponse(x) => {
            let _ = x.payload().data_utf8().map(|s| s.len());
        }
        RequestFnf(x) => {
            let _ = x.payload().metadata_utf8().map(|s| s.len());
        }
        RequestStream(x) => {
            let _ = x.payload().len();
        }
        RequestChannel(x) => {
            let _ = x.payload().len();
        }
        Payload(x) => {
            let _ = x.payload().data_utf8().map(|s| s.len());
        }
        _ => (),
    }
}

/// What is encoded besides frames.
fn others(r: &mut Rng) -> Outcome {
    match r.below(3) {
        0 => {
            let (a, b) = (r.int(16) as u16, r.int(16) as u16);
            lengths(r, &binate::frame::Version::new(a, b))?;
            Ok("version".into())
        }
        1 => {
            let (a, b) = (r.int(8) as u8, r.int(16) as u16);
            lengths(r, &binate::frame::U24::new(a, b))?;
            Ok("24-bit length".into())
        }
        _ => {
            let mut b = binate::Payload::builder();
            if r.chance(2) {
                let n = r.len(70);
                b = b.set_metadata(r.bytes(n));
            }
            if r.chance(2) {
                let n = r.len(70);
                b = b.set_data(r.bytes(n));
            }
            let p = b.build();
            r.log.push(format!("{:?}", p));
            lengths(r, &p)?;
            Ok("payload".into())
        }
    }
}

pub fn case(r: &mut Rng, _case: u64) -> Outcome {
    if cfg!(feature = "c03") && r.chance(10) {
        return others(r);
    }
    if cfg!(any(feature = "c01", feature = "c05", feature = "c06")) {
        let v = input(r);
        r.log.push(format!("input {}", show(&v)));
        let want = parse(&v);
        if cfg!(feature = "c01") {
            let mut b = Bytes::copy_from_slice(&v);
            let _ = Frame::decode(&mut b).map(touch);
            let mut b = &v[..];
            let _ = Frame::decode(&mut b).map(touch);
            let mut b = pieces(r, &v);
            let _ = Frame::decode(&mut b).map(touch);
        } else if cfg!(feature = "c05") {
            let mut b = Bytes::copy_from_slice(&v);
            let got = Frame::decode(&mut b);
            agrees(&got, &want)?;
            if let (Ok(_), Ok(p)) = (&got, &want) {
                eq!(v.len() - b.remaining(), p.used, "bytes consumed");
            }
        } else {
            let mut a = Bytes::copy_from_slice(&v);
            let mut b = pieces(r, &v);
            let mut at = 0;
            let mut ends = vec![];
            for p in &b.0 {
                at += p.len();
                ends.push(at.to_string());
            }
            r.log.push(format!("chunks end at {}", ends.join(",")));
            let x = Frame::decode(&mut a);
            let y = Frame::decode(&mut b);
            match (&x, &y) {
                (Ok(f), Ok(g)) => {
                    eq!(observe(g), observe(f), "frame decoded from chunks");
                    eq!(f == g, true, "frames equal");
                }
                (Err(e), Err(g)) => eq!(err(g), err(e), "error for chunks"),
                (Ok(_), Err(g)) => return Err(format!("decodes in one piece, fails in chunks: {:?}", g)),
                (Err(e), Ok(_)) => return Err(format!("decodes in chunks, fails in one piece: {:?}", e)),
            }
            eq!(b.remaining(), a.remaining(), "bytes left");
        }
        return Ok(kind(&want));
    }
    let ty = 1 + r.below(14) as u8;
    r.log.push(format!("type {}:", ty));
    if cfg!(feature = "c07") {
        return c07(r, ty);
    }
    let (f, d) = mk::frame(r, ty, Args::Valid);
    let seen = observe(&f);
    let k = format!("type {} {:#x} {:?} {:?}", ty, d.flags, d.meta.map(|m| m.len() > 0), d.data.map(|m| m.len() > 0));
    if cfg!(feature = "c02") {
        again(&f, &seen)?;
    } else if cfg!(feature = "c03") {
        lengths(r, &f)?;
    } else if cfg!(feature = "c04") {
        let mut b = BytesMut::new();
        b.put_slice(b"x");
        f.encode(&mut b);
        eq!(show(&b[1..]), show(&wire(&d, d.meta.is_some())), "encoded frame");
        holds!(b[1..] == wire(&d, d.meta.is_some())[..], "encoded frame differs from the layout");
    }
    // frames made by decoding
    if !cfg!(feature = "c04") {
        let v = input(r);
        r.log.push(format!("input {}", show(&v)));
        if let Ok(f) = Frame::decode(&mut &v[..]) {
            let seen = observe(&f);
            if cfg!(feature = "c02") {
                again(&f, &seen)?;
                let g = Frame::decode(&mut f.to_bytes()).unwrap();
                holds!(f == g, "decoded again: got {:?}, expected {:?}", g, f);
            } else {
                lengths(r, &f)?;
            }
        }
    }
    Ok(k)
}

#[cfg(debug_assertions)]
const ARGS: Args = Args::Valid;
#[cfg(not(debug_assertions))]
const ARGS: Args = Args::Any;

fn c07(r: &mut Rng, ty: u8) -> Outcome {
    if ty == SETUP {
        // setters in any order, repeated
        let mut d = mk::default_setup();
        let mut b = binate::frame::codec::SetupFrame::builder();
        for _ in 0..r.below(6) {
            let k = r.below(mk::SETTERS);
            r.log.push(format!("setter {}:", k));
            b = mk::set(r, ARGS, k, b, &mut d);
        }
        let f = b.build();
        eq!(f.metadata_mimetype().map(|m| m.as_bytes()), Some(d.mm), "metadata MIME type");
        eq!(f.data_mimetype().map(|m| m.as_bytes()), Some(d.dm), "data MIME type");
        let f = Frame::Setup(f);
        eq!(observe(&f), d, "frame built");
        if r.chance(20) {
            // too long
            let n = 256 + r.below(3) * 255 + r.below(2);
            let s = "x".repeat(n);
            r.log.push(format!("MIME type of {} bytes", n));
            let t = s.clone();
            holds!(
                crate::panics(|| binate::frame::codec::SetupFrame::builder().set_metadata_mimetype(s)),
                "over-long metadata MIME type accepted"
            );
            holds!(
                crate::panics(|| binate::frame::codec::SetupFrame::builder().set_data_mimetype(t)),
                "over-long data MIME type accepted"
            );
            let n = 65_536 + r.below(2);
            r.log.push(format!("token of {} bytes", n));
            holds!(
                crate::panics(|| binate::frame::codec::SetupFrame::builder()
                    .set_resume_token(Bytes::from(vec![0; n]))),
                "over-long token accepted"
            );
        }
        // not ASCII
        let s: String = ["é", "a\u{80}", "日本", "x"][r.below(4)].into();
        let f = binate::frame::codec::SetupFrame::builder()
            .set_metadata_mimetype(s.clone())
            .set_data_mimetype(s.clone())
            .build();
        let want = if s.is_ascii() { Some(&s[..]) } else { None };
        eq!(f.metadata_mimetype(), want, "metadata MIME type");
        eq!(f.data_mimetype(), want, "data MIME type");
        return Ok(format!("setup {:#x}", d.flags));
    }
    let (f, d) = mk::frame(r, ty, ARGS);
    eq!(observe(&f), d, "frame built");
    let whole = match f.clone() {
        Frame::RequestResponse(x) => Some(x.payload()),
        Frame::RequestFnf(x) => Some(x.payload()),
        Frame::RequestStream(x) => Some(x.payload()),
        Frame::RequestChannel(x) => Some(x.payload()),
        Frame::Payload(x) => Some(x.payload()),
        _ => None,
    };
    if let Some(p) = whole {
        eq!(p.metadata().map(|b| &b[..]), d.meta, "payload's metadata");
        eq!(p.data().map(|b| &b[..]), d.data, "payload's data");
    }
    if let Frame::Error(x) = &f {
        let want = d.data.and_then(|b| std::str::from_utf8(b).ok());
        eq!(x.data_utf8(), want, "error text");
    }
    Ok(format!("type {} {:#x} {:?} {:?}", ty, d.flags, d.meta.map(|m| m.len() > 0), d.data.map(|m| m.len() > 0)))
}
