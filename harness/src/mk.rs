//! Frames, made by the public constructors and builders, and what they have to say.
//!
//! Shared by the deductive harnesses (symbolic arguments) and the native replayer
//! (concrete arguments).
#![allow(dead_code)]
use crate::spec::*;
use binate::frame::codec::*;
use binate::frame::{Flags, Frame, Version};
use binate::prelude::Payload;
use bytes::Bytes;

/// Where arguments come from.
pub trait Src {
    fn bool(&mut self) -> bool;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    /// at most `max` bytes
    fn blob(&mut self, max: usize) -> &'static [u8];
    /// at most `max` ASCII characters
    fn ascii(&mut self, max: usize) -> (String, &'static [u8]);

    /// whether setter number `k` is called
    fn setter(&mut self, _k: usize) -> bool {
        self.bool()
    }

    fn opt_blob(&mut self, max: usize) -> Option<&'static [u8]> {
        if self.bool() {
            Some(self.blob(max))
        } else {
            None
        }
    }
}

pub const ANY: usize = 1 << 45;

#[derive(Clone, Copy, PartialEq)]
pub enum Args {
    /// within the documented limits
    Valid,
    /// including those which are out of range but not rejected (with debug
    /// assertions off)
    Any,
}

struct G<'a, S> {
    s: &'a mut S,
    a: Args,
}

impl<'a, S: Src> G<'a, S> {
    fn u31(&mut self) -> u32 {
        match self.a {
            Args::Valid => self.s.u32() & U31,
            Args::Any => self.s.u32(),
        }
    }
    fn positive(&mut self) -> u32 {
        match self.a {
            Args::Valid => {
                let n = self.s.u32() & U31;
                if n == 0 {
                    1
                } else {
                    n
                }
            }
            Args::Any => self.s.u32(),
        }
    }
    fn u63(&mut self) -> u64 {
        match self.a {
            Args::Valid => self.s.u64() & U63,
            Args::Any => self.s.u64(),
        }
    }
}

fn st(b: &'static [u8]) -> Bytes {
    Bytes::from_static(b)
}
fn ost(b: Option<&'static [u8]>) -> Option<Bytes> {
    match b {
        Some(b) => Some(Bytes::from_static(b)),
        None => None,
    }
}

/// A payload with the given parts.
pub fn payload(meta: Option<&'static [u8]>, data: Option<&'static [u8]>) -> Payload {
    match (meta, data) {
        (Some(m), Some(d)) => Payload::builder().set_metadata(st(m)).set_data(st(d)).build(),
        (Some(m), None) => Payload::builder().set_metadata(st(m)).build(),
        (None, Some(d)) => Payload::builder().set_data(st(d)).build(),
        (None, None) => Payload::builder().build(),
    }
}

fn bits(b: bool, bit: u16) -> u16 {
    if b {
        bit
    } else {
        0
    }
}

pub const DEFAULT_MIME: &[u8] = b"application/binary";
pub const DEFAULT_INTERVAL: u64 = 30_000;
pub const DEFAULT_TIMEOUT: u64 = 60_000;

/// The default of a SETUP frame.
pub fn default_setup() -> D<'static> {
    D {
        major: 1,
        minor: 0,
        n1: DEFAULT_INTERVAL,
        n2: DEFAULT_TIMEOUT,
        mm: DEFAULT_MIME,
        dm: DEFAULT_MIME,
        ..blank(SETUP)
    }
}

/// Applies the setter number `k` with arbitrary arguments.
pub fn set<S: Src>(
    s: &mut S,
    a: Args,
    k: usize,
    b: SetupFrameBuilder,
    d: &mut D<'static>,
) -> SetupFrameBuilder {
    let mut g = G { s, a };
    match k {
        0 => {
            d.flags |= B7;
            if d.token.is_none() {
                d.token = Some(&[]);
            }
            b.set_resume_flag()
        }
        1 => {
            d.flags |= B6;
            b.set_lease_flag()
        }
        2 => {
            d.major = g.s.u16();
            d.minor = g.s.u16();
            b.set_version(d.major, d.minor)
        }
        3 => {
            let n = g.u31();
            d.n1 = (n & U31) as u64;
            b.set_keepalive_interval(n)
        }
        4 => {
            let n = g.u31();
            d.n2 = (n & U31) as u64;
            b.set_keepalive_timeout(n)
        }
        5 => {
            let t = g.s.blob(65_535);
            d.flags |= B7;
            d.token = Some(t);
            b.set_resume_token(st(t))
        }
        6 => {
            let (t, v) = g.s.ascii(255);
            d.mm = v;
            b.set_metadata_mimetype(t)
        }
        7 => {
            let (t, v) = g.s.ascii(255);
            d.dm = v;
            b.set_data_mimetype(t)
        }
        8 => {
            let t = g.s.blob(MAX_META);
            d.meta = Some(t);
            b.set_metadata(st(t))
        }
        _ => {
            let t = g.s.blob(ANY);
            d.data = Some(t);
            b.set_data(st(t))
        }
    }
}
pub const SETTERS: usize = 10;

/// A frame of type `ty` and what its accessors have to report.
pub fn frame<S: Src>(s: &mut S, ty: u8, a: Args) -> (Frame, D<'static>) {
    let mut d = blank(ty);
    if ty == SETUP {
        let mut d = default_setup();
        let mut b = SetupFrame::builder();
        let mut k = 0;
        while k < SETTERS {
            if s.setter(k) {
                b = set(s, a, k, b, &mut d);
            }
            k += 1;
        }
        return (Frame::Setup(b.build()), d);
    }
    let mut g = G { s, a };
    let f = match ty {
        LEASE => {
            let (t, n) = (g.u31(), g.u31());
            d.n1 = (t & U31) as u64;
            d.n2 = (n & U31) as u64;
            d.meta = g.s.opt_blob(ANY);
            Frame::Lease(LeaseFrame::new(t, n, ost(d.meta)))
        }
        KEEPALIVE => {
            let p = g.u63();
            let r = g.s.bool();
            d.n1 = p & U63;
            d.flags = bits(r, B7);
            d.data = g.s.opt_blob(ANY);
            Frame::Keepalive(KeepaliveFrame::new(p, ost(d.data), r))
        }
        REQUEST_RESPONSE | REQUEST_FNF | REQUEST_STREAM | REQUEST_CHANNEL | PAYLOAD => {
            let sid = g.u31();
            d.stream = sid & U31;
            d.meta = g.s.opt_blob(MAX_META);
            d.data = g.s.opt_blob(ANY);
            let p = payload(d.meta, d.data);
            let (x, y, z) = (g.s.bool(), g.s.bool(), g.s.bool());
            match ty {
                REQUEST_RESPONSE => {
                    d.flags = bits(x, B7);
                    Frame::RequestResponse(RequestResponseFrame::new(sid, x, p))
                }
                REQUEST_FNF => {
                    d.flags = bits(x, B7);
                    Frame::RequestFnf(RequestFnfFrame::new(sid, x, p))
                }
                REQUEST_STREAM => {
                    let n = g.positive();
                    d.flags = bits(x, B7);
                    d.n1 = (n & U31) as u64;
                    Frame::RequestStream(RequestStreamFrame::new(sid, x, n, p))
                }
                REQUEST_CHANNEL => {
                    let n = g.positive();
                    d.flags = bits(x, B7) | bits(y, B6);
                    d.n1 = (n & U31) as u64;
                    Frame::RequestChannel(RequestChannelFrame::new(sid, x, y, n, p))
                }
                _ => {
                    d.flags = bits(x, B7) | bits(y, B6) | bits(z, B5);
                    let mut flags = Flags::empty();
                    if x {
                        flags |= Flags::FOLLOWS;
                    }
                    if y {
                        flags |= Flags::COMPLETE;
                    }
                    if z {
                        flags |= Flags::NEXT;
                    }
                    if a == Args::Any {
                        // flags that PAYLOAD frames do not have, or that follow
                        // from the parts
                        if g.s.bool() {
                            flags |= Flags::IGNORE;
                        }
                        if g.s.bool() {
                            flags |= Flags::METADATA;
                        }
                    }
                    Frame::Payload(PayloadFrame::new(sid, flags, p))
                }
            }
        }
        REQUEST_N => {
            let (sid, n) = (g.u31(), g.positive());
            d.stream = sid & U31;
            d.n1 = (n & U31) as u64;
            Frame::RequestN(RequestNFrame::new(sid, n))
        }
        CANCEL => {
            let sid = g.u31();
            d.stream = sid & U31;
            Frame::Cancel(CancelFrame::new(sid))
        }
        ERROR => {
            let (mut sid, code) = (g.u31(), g.s.u32());
            if a == Args::Valid {
                // connection-level codes go on stream 0, stream-level ones on others
                match code {
                    1..=4 | 0x101 | 0x102 => sid = 0,
                    0x201..=0x204 if sid == 0 => sid = 1,
                    _ => (),
                }
            }
            d.stream = sid & U31;
            d.n1 = code as u64;
            d.data = g.s.opt_blob(ANY);
            Frame::Error(ErrorFrame::new(sid, code, ost(d.data)))
        }
        METADATA_PUSH => {
            let m = g.s.blob(ANY);
            d.meta = Some(m);
            Frame::MetadataPush(MetadataPushFrame::new(st(m)))
        }
        RESUME => {
            d.major = g.s.u16();
            d.minor = g.s.u16();
            let t = g.s.blob(65_535);
            let (p, q) = (g.u63(), g.u63());
            d.token = Some(t);
            d.n1 = p & U63;
            d.n2 = q & U63;
            Frame::Resume(ResumeFrame::new(Version::new(d.major, d.minor), st(t), p, q))
        }
        RESUME_OK => {
            let p = g.u63();
            d.n1 = p & U63;
            Frame::ResumeOk(ResumeOkFrame::new(p))
        }
        _ => panic!("no such frame type"),
    };
    (f, d)
}

/// Calls `$f(name, code)` for every frame type.
#[macro_export]
macro_rules! every_type {
    ($m:ident) => {
        $m! {
            setup SETUP, lease LEASE, keepalive KEEPALIVE,
            request_response REQUEST_RESPONSE, request_fnf REQUEST_FNF,
            request_stream REQUEST_STREAM, request_channel REQUEST_CHANNEL,
            request_n REQUEST_N, cancel CANCEL, payload PAYLOAD, error ERROR,
            metadata_push METADATA_PUSH, resume RESUME, resume_ok RESUME_OK,
        }
    };
}
