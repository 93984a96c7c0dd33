//! Symbolic inputs: every value of the type, constrained only by `requires`.
use bytes::Bytes;

/// Lengths are limited by what one allocation can hold.
pub const OBJ: usize = 1 << 46;

/// An arbitrary byte string of arbitrary length up to `max` (0 included).
pub fn raw(max: usize) -> &'static [u8] {
    let n: usize = kani::any();
    kani::assume(n < OBJ && n <= max);
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n + 1, 1));
        std::slice::from_raw_parts(p, n)
    }
}

/// An arbitrary byte string of arbitrary length (0 included).
pub fn blob() -> Bytes {
    Bytes::from_static(raw(OBJ))
}

/// Symbolic arguments.
#[derive(Clone, Copy, Default)]
pub struct Sym {
    /// setters of which it is known whether they are called, and which are
    pub fixed: u16,
    pub called: u16,
}

impl crate::mk::Src for Sym {
    fn bool(&mut self) -> bool {
        kani::any()
    }
    fn setter(&mut self, k: usize) -> bool {
        if self.fixed >> k & 1 == 1 {
            self.called >> k & 1 == 1
        } else {
            kani::any()
        }
    }
    fn u16(&mut self) -> u16 {
        kani::any()
    }
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    fn blob(&mut self, max: usize) -> &'static [u8] {
        raw(max)
    }
    // that it is ASCII is expressed by the contracts of `from_utf8` and `is_ascii`
    fn ascii(&mut self, max: usize) -> (String, &'static [u8]) {
        let b = raw(max);
        let s = unsafe { String::from_raw_parts(b.as_ptr() as *mut u8, b.len(), b.len()) };
        (s, b)
    }
}

/// requires nothing; ensures: equal byte strings (at an arbitrary index)
pub fn same(a: &[u8], b: &[u8]) {
    assert!(a.len() == b.len(), "part has the wrong length");
    if a.as_ptr() == b.as_ptr() {
        return;
    }
    let i: usize = kani::any();
    if i < a.len() {
        assert!(a[i] == b[i], "part has a wrong byte");
    }
}

pub fn same_opt(a: &Option<&[u8]>, b: &Option<&[u8]>) {
    match (a, b) {
        (Some(a), Some(b)) => same(a, b),
        (None, None) => (),
        _ => panic!("part is present on one side only"),
    }
}

/// requires nothing; ensures: `got` says what `want` says
pub fn same_d(g: &crate::spec::D<'_>, w: &crate::spec::D<'_>) {
    assert!(g.ty == w.ty, "wrong frame type");
    assert!(g.stream == w.stream, "wrong stream ID");
    assert!(g.flags == w.flags, "wrong flags");
    assert!(g.major == w.major && g.minor == w.minor, "wrong version");
    assert!(g.n1 == w.n1, "wrong first number");
    assert!(g.n2 == w.n2, "wrong second number");
    same_opt(&g.token, &w.token);
    same(g.mm, w.mm);
    same(g.dm, w.dm);
    same_opt(&g.meta, &w.meta);
    same_opt(&g.data, &w.data);
}

/// SETUP frames: without resumption, with the RESUME flag only or with a token;
/// with metadata or without; with data or without. (The others setters are called or not.)
pub fn split(k: u16) -> Sym {
    let (fixed, called) = match k % 3 {
        0 => (1 | 1 << 5, 0),
        1 => (1 | 1 << 5, 1),
        _ => (1 << 5, 1 << 5),
    };
    Sym { fixed: fixed | 1 << 8 | 1 << 9, called: called | (k / 3 & 1) << 8 | (k / 6 & 1) << 9 }
}

/// Calls `$m!(name, type, symbolic arguments)` so that together all frames are covered.
#[macro_export]
macro_rules! every_case {
    ($m:ident) => {
        $m! {
            setup_0 SETUP split(0), setup_1 SETUP split(1),
            setup_2 SETUP split(2), setup_3 SETUP split(3),
            setup_4 SETUP split(4), setup_5 SETUP split(5),
            setup_6 SETUP split(6), setup_7 SETUP split(7),
            setup_8 SETUP split(8), setup_9 SETUP split(9),
            setup_10 SETUP split(10), setup_11 SETUP split(11),
            lease LEASE Sym::default(), keepalive KEEPALIVE Sym::default(),
            request_response REQUEST_RESPONSE Sym::default(), request_fnf REQUEST_FNF Sym::default(),
            request_stream REQUEST_STREAM Sym::default(), request_channel REQUEST_CHANNEL Sym::default(),
            request_n REQUEST_N Sym::default(), cancel CANCEL Sym::default(), payload PAYLOAD Sym::default(),
            error ERROR Sym::default(), metadata_push METADATA_PUSH Sym::default(), resume RESUME Sym::default(),
            resume_ok RESUME_OK Sym::default(),
        }
    };
}
