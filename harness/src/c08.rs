//! C08: chunks of a payload.
//!
//! The abstract state of the iterator is (n, metadata left, data left). `step` is the contract
//! of `next` in every state, `count` that of `len`. That the pieces concatenate to the parts, that
//! each but the last has n bytes and that `len` is the number of `next`s that return something
//! follow by induction on the bytes left: ../../lemmas/c08.rs (Verus).
use crate::gen::*;
use binate::Payload;
use bytes::Bytes;

type P = Option<&'static [u8]>;

fn any_part() -> P {
    if kani::any() {
        Some(raw(OBJ))
    } else {
        None
    }
}
fn own(p: P) -> Option<Bytes> {
    p.map(Bytes::from_static)
}
fn part(p: Option<&Bytes>) -> Option<&[u8]> {
    match p {
        Some(b) => Some(&b[..]),
        None => None,
    }
}

/// What is yielded of a part of which `p` is left, and what is left then.
fn take(p: P, n: usize) -> (P, P) {
    match p {
        None => (None, None),
        Some(v) if v.len() <= n => (p, None),
        Some(v) => (Some(&v[..n]), Some(&v[n..])),
    }
}

#[cfg(feature = "hooks")]
mod state {
    use super::*;
    use binate::verif::PayloadChunks;

    fn any_state() -> (PayloadChunks, usize, P, P) {
        let n: usize = kani::any();
        kani::assume(n > 0);
        let (m, d) = (any_part(), any_part());
        (PayloadChunks::verif_new(n, own(m), own(d)), n, m, d)
    }

    fn is(c: &PayloadChunks, n: usize, m: P, d: P) {
        let (k, cm, cd) = c.verif_state();
        assert!(k == n, "chunk size changes");
        same_opt(&part(cm), &m);
        same_opt(&part(cd), &d);
    }

    /// PayloadChunks::next(&mut self): requires n > 0
    /// ensures nothing left: None, and still nothing left
    /// ensures otherwise: Some(p); of each part the first n bytes, or all if there are no more,
    ///         are in p and no longer left; an absent part stays absent
    #[kani::proof]
    #[kani::unwind(4)]
    fn step() {
        let (mut c, n, m, d) = any_state();
        let ((m1, m2), (d1, d2)) = (take(m, n), take(d, n));
        match c.next() {
            None => {
                kani::cover!(true, "the end");
                assert!(m.is_none() && d.is_none(), "ends although something is left");
                is(&c, n, None, None);
            }
            Some(p) => {
                kani::cover!(m2.is_some() && d2.is_none(), "data ends first");
                assert!(m.is_some() || d.is_some(), "goes on after the end");
                same_opt(&part(p.metadata()), &m1);
                same_opt(&part(p.data()), &d1);
                is(&c, n, m2, d2);
                std::mem::forget(p);
            }
        }
        std::mem::forget(c);
    }

    /// len(self): requires n > 0
    /// ensures 0 for an absent part, 1 for an empty one, else q with (q-1) * n < bytes <= q * n;
    ///         the larger of both parts
    fn counted(m: Option<Bytes>, d: Option<Bytes>) {
        let n: usize = kani::any();
        kani::assume(n > 0);
        let of = |p: &Option<Bytes>| match p {
            None => 0,
            Some(v) if v.len() == 0 => 1,
            Some(v) => (v.len() - 1) / n + 1,
        };
        let (a, b) = (of(&m), of(&d));
        let c = PayloadChunks::verif_new(n, m, d);
        let q = ExactSizeIterator::len(&c);
        assert!(c.size_hint() == (q, Some(q)), "size_hint is not the number of chunks");
        assert!(q == if a > b { a } else { b }, "wrong number of chunks announced");
        std::mem::forget(c);
    }
    #[kani::proof]
    #[kani::solver(z3)]
    #[kani::unwind(4)]
    fn count_metadata() {
        counted(own(any_part()), None)
    }
    #[kani::proof]
    #[kani::solver(z3)]
    #[kani::unwind(4)]
    fn count_data() {
        counted(None, own(any_part()))
    }
    #[kani::proof]
    #[kani::solver(z3)]
    #[kani::unwind(4)]
    fn count_both() {
        counted(Some(blob()), Some(blob()))
    }

    /// Payload::chunks(self, n): requires n > 0; ensures the state (n, metadata, data)
    #[kani::proof]
    #[kani::unwind(4)]
    fn start() {
        let n: usize = kani::any();
        kani::assume(n > 0);
        let (m, d) = (any_part(), any_part());
        let mut b = Payload::builder();
        if let Some(m) = m {
            b = b.set_metadata(Bytes::from_static(m));
        }
        if let Some(d) = d {
            b = b.set_data(Bytes::from_static(d));
        }
        let c = b.build().chunks(n);
        is(&c, n, m, d);
        std::mem::forget(c);
    }
}

/// Payload::chunks(self, 0): rejected
#[kani::proof]
#[kani::unwind(4)]
fn rejects() {
    let c = Payload::builder().set_data(Bytes::from_static(raw(OBJ))).build().chunks(0);
    std::mem::forget(c);
    assert!(false, "ACCEPTED");
}

/// Stand-in for the above without the hook; bounded: parts of up to 3 bytes, chunks of 1 to 4.
#[kani::proof]
#[kani::unwind(7)]
fn whole() {
    let small = |p: P| kani::assume(p.map_or(true, |v| v.len() <= 3));
    let n: usize = kani::any();
    kani::assume(n > 0 && n <= 4);
    let (m, d) = (any_part(), any_part());
    small(m);
    small(d);
    let mut b = Payload::builder();
    if let Some(m) = m {
        b = b.set_metadata(Bytes::from_static(m));
    }
    if let Some(d) = d {
        b = b.set_data(Bytes::from_static(d));
    }
    let mut c = b.build().chunks(n);
    let (mut m, mut d) = (m, d);
    for _ in 0..5 {
        let of = |p: P| p.map_or(0, |v| if v.len() == 0 { 1 } else { (v.len() - 1) / n + 1 });
        let q = if of(m) > of(d) { of(m) } else { of(d) };
        assert!(ExactSizeIterator::len(&c) == q, "wrong number of chunks announced");
        assert!(c.size_hint() == (q, Some(q)), "size_hint is not the number of chunks");
        let ((m1, m2), (d1, d2)) = (take(m, n), take(d, n));
        match c.next() {
            None => assert!(m.is_none() && d.is_none(), "ends although something is left"),
            Some(p) => {
                assert!(m.is_some() || d.is_some(), "goes on after the end");
                same_opt(&part(p.metadata()), &m1);
                same_opt(&part(p.data()), &d1);
                std::mem::forget(p);
            }
        }
        m = m2;
        d = d2;
    }
    assert!(m.is_none() && d.is_none());
    std::mem::forget(c);
}
