//! C19: errors.
use crate::gen::*;
use binate::frame::DecodeError;
use binate::Error;
use std::error::Error as StdError;
use std::fmt::Write;

const PIECES: usize = 12;

/// What has been written, as the pieces it was written in.
pub struct Text {
    ptr: [*const u8; PIECES],
    len: [usize; PIECES],
    n: usize,
}

impl Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() == 0 {
            return Ok(());
        }
        assert!(self.n < PIECES, "MODEL-LIMIT: too many pieces");
        self.ptr[self.n] = s.as_ptr();
        self.len[self.n] = s.len();
        self.n += 1;
        Ok(())
    }
}

impl Text {
    pub fn new() -> Text {
        Text { ptr: [std::ptr::null(); PIECES], len: [0; PIECES], n: 0 }
    }
    fn total(&self) -> usize {
        let mut t = 0;
        let mut k = 0;
        while k < PIECES {
            if k < self.n {
                t += self.len[k];
            }
            k += 1;
        }
        t
    }
    fn at(&self, i: usize) -> u8 {
        let mut p = 0;
        let mut k = 0;
        let mut v = 0;
        while k < PIECES {
            if k < self.n {
                if i >= p && i < p + self.len[k] {
                    v = unsafe { *self.ptr[k].wrapping_add(i - p) };
                }
                p += self.len[k];
            }
            k += 1;
        }
        v
    }
    /// ensures the text is `a` followed by `b` (at an arbitrary index)
    fn is(&self, a: &str, b: &[u8]) {
        assert!(self.total() == a.len() + b.len(), "text has the wrong length");
        let i: usize = kani::any();
        if i < a.len() {
            assert!(self.at(i) == a.as_bytes()[i], "text does not name the code and value");
        } else if i < a.len() + b.len() {
            assert!(self.at(i) == b[i - a.len()], "text does not end with the source");
        }
    }
}

/// Everything that can be asked.
#[derive(Clone, Copy, PartialEq, Eq)]
struct Answers {
    code: u16, // bit per protocol code
    protocol: bool,
    setup: bool,
    decode: bool,
}

fn ask(e: &Error) -> Answers {
    let q = [
        e.is_invalid_setup(),
        e.is_unsupported_setup(),
        e.is_rejected_setup(),
        e.is_rejected_resume(),
        e.is_connection_error(),
        e.is_connection_close(),
        e.is_application_error(),
        e.is_rejected(),
        e.is_cancel(),
        e.is_invalid(),
    ];
    let mut code = 0;
    let mut k = 0;
    while k < 10 {
        if q[k] {
            code |= 1 << k;
        }
        k += 1;
    }
    Answers { code, protocol: e.is_protocol(), setup: e.is_setup(), decode: e.is_decode() }
}

#[cfg(feature = "hooks")]
mod protocol {
    use super::*;
    use binate::verif::protocol_error;
    use binate::Code;

    fn code(k: usize) -> (Code, &'static str, &'static str) {
        match k {
            0 => (Code::InvalidSetup, "INVALID_SETUP (0x00000001)", "INVALID_SETUP (0x00000001): "),
            1 => (Code::UnsupportedSetup, "UNSUPPORTED_SETUP (0x00000002)", "UNSUPPORTED_SETUP (0x00000002): "),
            2 => (Code::RejectedSetup, "REJECTED_SETUP (0x00000003)", "REJECTED_SETUP (0x00000003): "),
            3 => (Code::RejectedResume, "REJECTED_RESUME (0x00000004)", "REJECTED_RESUME (0x00000004): "),
            4 => (Code::ConnectionError, "CONNECTION_ERROR (0x00000101)", "CONNECTION_ERROR (0x00000101): "),
            5 => (Code::ConnectionClose, "CONNECTION_CLOSE (0x00000102)", "CONNECTION_CLOSE (0x00000102): "),
            6 => (Code::ApplicationError, "APPLICATION_ERROR (0x00000201)", "APPLICATION_ERROR (0x00000201): "),
            7 => (Code::Rejected, "REJECTED (0x00000202)", "REJECTED (0x00000202): "),
            8 => (Code::Canceled, "CANCELED (0x00000203)", "CANCELED (0x00000203): "),
            _ => (Code::Invalid, "INVALID (0x00000204)", "INVALID (0x00000204): "),
        }
    }

    const VALUES: [u32; 10] = [1, 2, 3, 4, 0x101, 0x102, 0x201, 0x202, 0x203, 0x204];

    /// An error of protocol code number k, with any source or none:
    /// is_*: ensures exactly the query of the code; the groups as documented
    /// source: ensures what it was made from
    fn asked(k: usize) {
        let (c, _, _) = code(k);
        assert!(c as u32 == VALUES[k], "code has the wrong value");
        let source = if kani::any() { Some(raw(OBJ)) } else { None };
        let e = protocol_error(c, source.map(text));
        kani::cover!(source.is_some(), "source");
        let want = Answers { code: 1 << k, protocol: true, setup: k < 3, decode: false };
        let got = ask(&e);
        assert!(got.code & want.code != 0, "does not answer the query of its code");
        assert!(got.code == want.code, "answers the query of another code");
        assert!(got.protocol, "no protocol error");
        assert!(got.setup == want.setup, "group of setup errors");
        assert!(!got.decode, "taken for a decode error");
        match (e.source(), source) {
            (None, None) => (),
            (Some(s), Some(v)) => {
                // the standard library's error made from a string is that string
                assert!(std::mem::size_of_val(s) == std::mem::size_of::<String>(), "MODEL-LIMIT: another kind of source");
                let s = unsafe { &*(s as *const (dyn StdError + 'static) as *const String) };
                same(s.as_bytes(), v);
            }
            _ => panic!("source lost or invented"),
        }
        std::mem::forget(e);
    }

    fn text(v: &'static [u8]) -> String {
        unsafe { String::from_raw_parts(v.as_ptr() as *mut u8, v.len(), v.len()) }
    }

    /// Display: ensures "<NAME> (<value>)", or "<NAME> (<value>): <source>"
    fn shown(k: usize) {
        let (c, alone, before) = code(k);
        let mut t = Text::new();
        if kani::any() {
            let e = protocol_error(c, None);
            assert!(write!(t, "{}", e).is_ok(), "does not display");
            t.is(alone, &[]);
            std::mem::forget(e);
        } else {
            let v = raw(OBJ);
            let e = protocol_error(c, Some(text(v)));
            assert!(write!(t, "{}", e).is_ok(), "does not display");
            t.is(before, v);
            std::mem::forget(e);
        }
    }

    macro_rules! codes {
        ($($name:ident $k:literal,)*) => { $(
            mod $name {
                #[kani::proof]
                #[kani::unwind(14)]
                fn asked() { super::asked($k) }
                #[kani::proof]
                #[kani::unwind(14)]
                fn shown() { super::shown($k) }
            }
        )* };
    }
    codes! {
        invalid_setup 0, unsupported_setup 1, rejected_setup 2, rejected_resume 3,
        connection_error 4, connection_close 5, application_error 6, rejected 7,
        canceled 8, invalid 9,
    }
}

/// The last number in the text: hexadecimal after "0x", else decimal.
fn last_number(t: &Text) -> Option<u64> {
    let n = t.total();
    assert!(n <= 63, "MODEL-LIMIT: long text");
    let mut v: Option<u64> = None;
    let mut in_number = false;
    let mut hex = false;
    let mut k = 0;
    while k < 64 {
        if k < n {
            let c = t.at(k);
            let d = if c >= b'0' && c <= b'9' {
                Some(c - b'0')
            } else if hex && in_number && c >= b'a' && c <= b'f' {
                Some(c - b'a' + 10)
            } else {
                None
            };
            match d {
                Some(d) if in_number => v = Some(v.unwrap_or(0) * if hex { 16 } else { 10 } + d as u64),
                Some(d) => {
                    in_number = true;
                    hex = false;
                    v = Some(d as u64);
                }
                None if in_number && c == b'x' && v == Some(0) => hex = true,
                None => in_number = false,
            }
        }
        k += 1;
    }
    v
}

/// <DecodeError as Display>: ensures the value found is named
#[kani::proof]
#[kani::unwind(66)]
fn decode_text() {
    let v: u16 = kani::any();
    let mut t = Text::new();
    assert!(write!(t, "{}", DecodeError::UnrecognizedFrameType(v)).is_ok());
    assert!(last_number(&t) == Some(v as u64), "text does not name the frame type found");
}
/// What <u32 as Display> has been asked to show.
static mut SHOWN: [u32; 4] = [0; 4];
static mut SHOWS: usize = 0;

/// <u32 as Display>::fmt: ensures that the number is shown, for the default format specification.
/// Which digits it has is left open.
fn show(v: &u32, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    unsafe {
        assert!(SHOWS < 4, "MODEL-LIMIT: too many numbers");
        SHOWN[SHOWS] = *v;
        SHOWS += 1;
    }
    f.write_str("#")
}

/// <DecodeError as Display>: ensures that the stream ID found is shown as it is
#[kani::proof]
#[kani::unwind(66)]
#[kani::stub(<u32 as std::fmt::Display>::fmt, show)]
fn stream_text() {
    let v: u32 = kani::any();
    let mut t = Text::new();
    assert!(write!(t, "{}", DecodeError::InvalidStreamId { expected: "0", found: v }).is_ok());
    let n = unsafe { SHOWS };
    if n == 0 {
        // shown in another way
        kani::assume(v < 1 << 16);
        assert!(last_number(&t) == Some(v as u64), "text does not name the stream ID found");
    } else {
        let mut named = false;
        for k in 0..4 {
            named |= k < n && unsafe { SHOWN[k] } == v;
        }
        assert!(named, "text does not name the stream ID found");
    }
}

/// <DecodeError as Display>::fmt, <io::Error as Display>::fmt: ensures that the text of the error
/// is written. Here it is "#".
fn show_decode(_: &DecodeError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("#")
}
fn show_io(_: &std::io::Error, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("#")
}

/// the text ends with that of the source
fn ends(t: &Text) -> bool {
    t.total() > 0 && t.at(t.total() - 1) == b'#'
}

fn decode_error() -> DecodeError {
    match kani::any::<u8>() {
        0 => DecodeError::InComplete,
        1 => DecodeError::UnrecognizedFrameType(kani::any()),
        _ => DecodeError::InvalidStreamId { expected: "0", found: kani::any() },
    }
}

/// From<DecodeError>, for every decode error: ensures a decode error and nothing else, whose source
/// has the text of the decode error, and whose text ends with that of its source
#[kani::proof]
#[kani::unwind(66)]
#[kani::stub(<binate::frame::DecodeError as std::fmt::Display>::fmt, show_decode)]
fn decode() {
    let e: Error = decode_error().into();
    let got = ask(&e);
    assert!(got == Answers { code: 0, protocol: false, setup: false, decode: true }, "classification of a decode error");
    let mut t = Text::new();
    match e.source() {
        Some(s) => assert!(write!(t, "{}", s).is_ok()),
        None => panic!("no source"),
    }
    assert!(t.total() == 1 && ends(&t), "the source of a decode error has another text");
    let mut t = Text::new();
    assert!(write!(t, "{}", e).is_ok());
    assert!(ends(&t), "text of a decode error without its source");
    std::mem::forget(e);
}

fn io_kind() -> std::io::ErrorKind {
    use std::io::ErrorKind::*;
    match kani::any::<u8>() {
        0 => NotFound, 1 => PermissionDenied, 2 => ConnectionRefused, 3 => ConnectionReset,
        4 => ConnectionAborted, 5 => NotConnected, 6 => AddrInUse, 7 => AddrNotAvailable,
        8 => BrokenPipe, 9 => AlreadyExists, 10 => WouldBlock, 11 => InvalidInput,
        12 => InvalidData, 13 => TimedOut, 14 => WriteZero, 15 => Interrupted,
        16 => Unsupported, 17 => OutOfMemory, 18 => Other, _ => UnexpectedEof,
    }
}

/// From<io::Error>: ensures none of the classes, and that error as the source
fn from_io(i: std::io::Error, k: std::io::ErrorKind) {
    let e: Error = i.into();
    let got = ask(&e);
    assert!(got == Answers { code: 0, protocol: false, setup: false, decode: false }, "classification of an I/O error");
    match e.source().and_then(|s| s.downcast_ref::<std::io::Error>()) {
        Some(s) => assert!(s.kind() == k, "another I/O error as the source"),
        None => panic!("no source"),
    }
    std::mem::forget(e);
}

#[kani::proof]
#[kani::unwind(66)]
fn io() {
    use std::io::ErrorKind::*;
    from_io(UnexpectedEof.into(), UnexpectedEof);
    from_io(NotFound.into(), NotFound);
    from_io(PermissionDenied.into(), PermissionDenied);
    from_io(ConnectionRefused.into(), ConnectionRefused);
    from_io(ConnectionReset.into(), ConnectionReset);
    from_io(ConnectionAborted.into(), ConnectionAborted);
    from_io(NotConnected.into(), NotConnected);
    from_io(BrokenPipe.into(), BrokenPipe);
    from_io(WouldBlock.into(), WouldBlock);
    from_io(InvalidInput.into(), InvalidInput);
    from_io(InvalidData.into(), InvalidData);
    from_io(TimedOut.into(), TimedOut);
    from_io(WriteZero.into(), WriteZero);
    from_io(Interrupted.into(), Interrupted);
    from_io(Other.into(), Other);
}

#[derive(Debug)]
struct Inner;
impl std::fmt::Display for Inner {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl StdError for Inner {}

/// with an error inside
#[kani::proof]
#[kani::unwind(66)]
fn io_inner() {
    from_io(std::io::Error::new(std::io::ErrorKind::Other, Inner), std::io::ErrorKind::Other)
}

/// Display of an I/O error: ensures a text that ends with that of its source
#[kani::proof]
#[kani::unwind(66)]
#[kani::stub(<std::io::Error as std::fmt::Display>::fmt, show_io)]
fn io_text() {
    let e: Error = std::io::Error::from(io_kind()).into();
    let mut t = Text::new();
    assert!(write!(t, "{}", e).is_ok());
    assert!(ends(&t), "text of an I/O error without its source");
    std::mem::forget(e);
}
