//! The specification: RSocket 1.0 frames as the properties state them.
//!
//! Written from the protocol and the property statements, not from the code.
//! Shared by the deductive harnesses (where the inputs are symbolic) and by the
//! native replayer (where they are concrete).
#![allow(dead_code)]

pub const SETUP: u8 = 0x01;
pub const LEASE: u8 = 0x02;
pub const KEEPALIVE: u8 = 0x03;
pub const REQUEST_RESPONSE: u8 = 0x04;
pub const REQUEST_FNF: u8 = 0x05;
pub const REQUEST_STREAM: u8 = 0x06;
pub const REQUEST_CHANNEL: u8 = 0x07;
pub const REQUEST_N: u8 = 0x08;
pub const CANCEL: u8 = 0x09;
pub const PAYLOAD: u8 = 0x0A;
pub const ERROR: u8 = 0x0B;
pub const METADATA_PUSH: u8 = 0x0C;
pub const RESUME: u8 = 0x0D;
pub const RESUME_OK: u8 = 0x0E;

pub const M: u16 = 0x100; // METADATA
pub const B7: u16 = 0x080; // FOLLOWS | RESUME | RESPOND
pub const B6: u16 = 0x040; // COMPLETE | LEASE
pub const B5: u16 = 0x020; // NEXT

pub const U31: u32 = 0x7FFF_FFFF;
pub const U63: u64 = 0x7FFF_FFFF_FFFF_FFFF;
pub const MAX_META: usize = 0xFF_FFFF;

/// What a frame says, independent of any representation.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct D<'a> {
    pub ty: u8,
    pub stream: u32,
    /// flag bits of this frame type, METADATA aside
    pub flags: u16,
    pub major: u16,
    pub minor: u16,
    /// keepalive interval, lease ttl, request n, error code, first position
    pub n1: u64,
    /// max lifetime, lease count, second position
    pub n2: u64,
    pub token: Option<&'a [u8]>,
    pub mm: &'a [u8],
    pub dm: &'a [u8],
    pub meta: Option<&'a [u8]>,
    pub data: Option<&'a [u8]>,
}

pub fn blank<'a>(ty: u8) -> D<'a> {
    D {
        ty,
        stream: 0,
        flags: 0,
        major: 0,
        minor: 0,
        n1: 0,
        n2: 0,
        token: None,
        mm: &[],
        dm: &[],
        meta: None,
        data: None,
    }
}

pub fn len(x: &Option<&[u8]>) -> usize {
    match x {
        Some(b) => b.len(),
        None => 0,
    }
}

/// Frame types whose payload is `[metadata length] [metadata] data`.
pub fn has_payload(ty: u8) -> bool {
    matches!(
        ty,
        SETUP | REQUEST_RESPONSE | REQUEST_FNF | REQUEST_STREAM | REQUEST_CHANNEL | PAYLOAD
    )
}

/// The flag bits a frame type has, METADATA aside.
pub fn own_flags(ty: u8) -> u16 {
    match ty {
        SETUP => B7 | B6,
        KEEPALIVE | REQUEST_RESPONSE | REQUEST_FNF | REQUEST_STREAM => B7,
        REQUEST_CHANNEL => B7 | B6,
        PAYLOAD => B7 | B6 | B5,
        _ => 0,
    }
}

// ---------------------------------------------------------------- wire layout

#[derive(Clone, Copy, Debug)]
pub enum It<'a> {
    N(u64, usize), // big-endian, width in bytes
    B(&'a [u8]),
}

impl<'a> It<'a> {
    pub fn len(&self) -> usize {
        match self {
            It::N(_, w) => *w,
            It::B(b) => b.len(),
        }
    }
    pub fn at(&self, i: usize) -> u8 {
        match self {
            It::N(v, w) => (v >> (8 * (w - 1 - i) as u32)) as u8,
            It::B(b) => b[i],
        }
    }
}

pub const ITEMS: usize = 15;

pub struct Lay<'a> {
    pub it: [It<'a>; ITEMS],
    pub n: usize,
}

impl<'a> Lay<'a> {
    fn new() -> Self {
        Lay { it: [It::N(0, 0); ITEMS], n: 0 }
    }
    fn n(&mut self, v: u64, w: usize) {
        self.it[self.n] = It::N(v, w);
        self.n += 1;
    }
    fn b(&mut self, b: &'a [u8]) {
        self.it[self.n] = It::B(b);
        self.n += 1;
    }
    pub fn total(&self) -> usize {
        let mut t = 0;
        let mut k = 0;
        while k < ITEMS {
            t += self.it[k].len();
            k += 1;
        }
        t
    }
    /// requires i < total()
    pub fn at(&self, i: usize) -> u8 {
        let mut pos = 0;
        let mut k = 0;
        while k < ITEMS {
            let l = self.it[k].len();
            if i >= pos && i - pos < l {
                return self.it[k].at(i - pos);
            }
            pos += l;
            k += 1;
        }
        0
    }
}

/// The RSocket wire layout of a frame. `mflag` is the METADATA bit.
pub fn layout<'a>(d: &D<'a>, mflag: bool) -> Lay<'a> {
    let mut l = Lay::new();
    l.n(d.stream as u64, 4);
    l.n(((d.ty as u64) << 10) | d.flags as u64 | if mflag { M as u64 } else { 0 }, 2);
    match d.ty {
        SETUP => {
            l.n(d.major as u64, 2);
            l.n(d.minor as u64, 2);
            l.n(d.n1, 4);
            l.n(d.n2, 4);
            if let Some(t) = d.token {
                l.n(t.len() as u64, 2);
                l.b(t);
            }
            l.n(d.mm.len() as u64, 1);
            l.b(d.mm);
            l.n(d.dm.len() as u64, 1);
            l.b(d.dm);
        }
        LEASE => {
            l.n(d.n1, 4);
            l.n(d.n2, 4);
        }
        KEEPALIVE => l.n(d.n1, 8),
        REQUEST_STREAM | REQUEST_CHANNEL | REQUEST_N => l.n(d.n1, 4),
        ERROR => l.n(d.n1, 4),
        RESUME => {
            l.n(d.major as u64, 2);
            l.n(d.minor as u64, 2);
            if let Some(t) = d.token {
                l.n(t.len() as u64, 2);
                l.b(t);
            }
            l.n(d.n1, 8);
            l.n(d.n2, 8);
        }
        RESUME_OK => l.n(d.n1, 8),
        _ => (),
    }
    if has_payload(d.ty) && mflag {
        l.n(len(&d.meta) as u64, 3);
    }
    if let Some(m) = d.meta {
        l.b(m);
    }
    if let Some(x) = d.data {
        l.b(x);
    }
    l
}

// -------------------------------------------------------------------- parsing

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum E {
    Incomplete,
    Unrecognized(u16),
    /// the ID found; true if a stream-level code came on stream 0
    Stream(u32, bool),
}

/// The input, as the specification reads it.
pub trait In<'a> {
    fn len(&self) -> usize;
    /// The big-endian value of the `w` bytes at `p`. requires p + w <= len()
    fn be(&self, p: usize, w: usize) -> u64;
    /// requires p + k <= len()
    fn part(&self, p: usize, k: usize) -> &'a [u8];
}

impl<'a> In<'a> for &'a [u8] {
    fn len(&self) -> usize {
        <[u8]>::len(self)
    }
    fn be(&self, p: usize, w: usize) -> u64 {
        let mut v = 0u64;
        let mut k = 0;
        while k < w {
            v = (v << 8) | self[p + k] as u64;
            k += 1;
        }
        v
    }
    fn part(&self, p: usize, k: usize) -> &'a [u8] {
        &self[p..p + k]
    }
}

pub struct Parsed<'a> {
    pub d: D<'a>,
    pub mflag: bool,
    pub used: usize,
}

/// What the bytes say, or what is wrong with them.
pub fn parse<'a>(b: &'a [u8]) -> Result<Parsed<'a>, E> {
    let n = b.len();
    if n < 6 {
        return Err(E::Incomplete);
    }
    parse_as(&b, b[4] >> 2)
}

/// `parse` for a known frame type (lets the type be concrete in a proof).
pub fn parse_as<'a, I: In<'a>>(b: &I, ty: u8) -> Result<Parsed<'a>, E> {
    if b.len() < 6 {
        return Err(E::Incomplete);
    }
    let stream = b.be(0, 4) as u32 & U31;
    let head = b.be(4, 2) as u16;
    parse_rest(b, ty, stream, head, 6)
}

/// What follows the header: `p` bytes, read as `c` values, came before.
pub fn parse_rest<'a, I: In<'a>>(
    b: &I,
    ty: u8,
    stream: u32,
    head: u16,
    mut p: usize,
) -> Result<Parsed<'a>, E> {
    let n = b.len();
    let mut d = blank(ty);
    d.stream = stream;
    if ty == 0 || ty > RESUME_OK {
        return Err(E::Unrecognized(ty as u16));
    }
    d.flags = head & own_flags(ty);
    let mflag = head & M != 0;
    macro_rules! need {
        ($k:expr) => {
            if n - p < $k {
                return Err(E::Incomplete);
            }
        };
    }
    macro_rules! int {
        ($w:expr) => {{
            need!($w);
            let v = b.be(p, $w);
            p += $w;
            v
        }};
    }
    macro_rules! take {
        ($k:expr) => {{
            let k = $k;
            need!(k);
            let v = b.part(p, k);
            p += k;
            v
        }};
    }
    let connection_level =
        matches!(ty, SETUP | LEASE | KEEPALIVE | METADATA_PUSH | RESUME | RESUME_OK);
    if connection_level && d.stream != 0 {
        return Err(E::Stream(d.stream, false));
    }
    match ty {
        SETUP => {
            d.major = int!(2) as u16;
            d.minor = int!(2) as u16;
            d.n1 = int!(4) & U31 as u64;
            d.n2 = int!(4) & U31 as u64;
            if d.flags & B7 != 0 {
                let l = int!(2) as usize;
                d.token = Some(take!(l));
            }
            let l = int!(1) as usize;
            d.mm = take!(l);
            let l = int!(1) as usize;
            d.dm = take!(l);
        }
        LEASE => {
            d.n1 = int!(4) & U31 as u64;
            d.n2 = int!(4) & U31 as u64;
        }
        KEEPALIVE => d.n1 = int!(8) & U63,
        REQUEST_STREAM | REQUEST_CHANNEL | REQUEST_N => d.n1 = int!(4) & U31 as u64,
        ERROR => {
            d.n1 = int!(4);
            match d.n1 {
                1..=4 | 0x101 | 0x102 if d.stream != 0 => {
                    return Err(E::Stream(d.stream, false))
                }
                0x201..=0x204 if d.stream == 0 => return Err(E::Stream(0, true)),
                _ => (),
            }
        }
        RESUME => {
            d.major = int!(2) as u16;
            d.minor = int!(2) as u16;
            let l = int!(2) as usize;
            d.token = Some(take!(l));
            d.n1 = int!(8) & U63;
            d.n2 = int!(8) & U63;
        }
        RESUME_OK => d.n1 = int!(8) & U63,
        _ => (),
    }
    if has_payload(ty) {
        if mflag {
            let l = int!(3) as usize;
            if l > 0 {
                d.meta = Some(take!(l));
            }
        }
        if n > p {
            d.data = Some(b.part(p, n - p));
            p = n;
        }
    } else if matches!(ty, KEEPALIVE | ERROR) {
        if n > p {
            d.data = Some(b.part(p, n - p));
            p = n;
        }
    } else if ty == LEASE {
        if n > p {
            d.meta = Some(b.part(p, n - p));
            p = n;
        }
    } else if ty == METADATA_PUSH {
        d.meta = Some(b.part(p, n - p));
        p = n;
    }
    Ok(Parsed { d, mflag, used: p })
}
