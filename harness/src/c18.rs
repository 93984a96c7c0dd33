//! C18: versions.
use binate::frame::{Encode, Version};
use bytes::BytesMut;
use std::cmp::Ordering;
use std::fmt::Write;

fn order(a: (u16, u16), b: (u16, u16)) -> Ordering {
    if a.0 != b.0 {
        if a.0 < b.0 {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    } else if a.1 != b.1 {
        if a.1 < b.1 {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    } else {
        Ordering::Equal
    }
}

/// cmp, partial_cmp, <, <=, >, >=, ==, !=, max, min:
/// ensures the result for the pairs (major, minor)
#[kani::proof]
fn compare() {
    let p: (u16, u16) = kani::any();
    let q: (u16, u16) = kani::any();
    let (a, b) = (Version::new(p.0, p.1), Version::new(q.0, q.1));
    let o = order(p, q);
    kani::cover!(o == Ordering::Less, "less");
    kani::cover!(o == Ordering::Equal, "equal");
    assert!(a.cmp(&b) == o, "cmp");
    assert!(a.partial_cmp(&b) == Some(o), "partial_cmp");
    assert!((a < b) == (o == Ordering::Less), "<");
    assert!((a <= b) == (o != Ordering::Greater), "<=");
    assert!((a > b) == (o == Ordering::Greater), ">");
    assert!((a >= b) == (o != Ordering::Less), ">=");
    assert!((a == b) == (o == Ordering::Equal), "==");
    assert!((a != b) == (o != Ordering::Equal), "!=");
    let (hi, lo) = if o == Ordering::Less { (q, p) } else { (p, q) };
    let m = a.max(b);
    assert!((m.major(), m.minor()) == hi, "max");
    let m = a.min(b);
    assert!((m.major(), m.minor()) == lo, "min");
    // clamped between two versions
    let r: (u16, u16) = kani::any();
    let c = Version::new(r.0, r.1);
    if lo != hi {
        let (l, h) = (Version::new(lo.0, lo.1), Version::new(hi.0, hi.1));
        let want = if order(r, lo) == Ordering::Less {
            lo
        } else if order(r, hi) == Ordering::Greater {
            hi
        } else {
            r
        };
        let m = c.clamp(l, h);
        assert!((m.major(), m.minor()) == want, "clamp");
    }
}

/// major, minor: ensures what it was made from
/// encode: ensures buf@ == old(buf)@ + both numbers, big-endian
#[kani::proof]
#[kani::unwind(10)]
fn reports() {
    let (a, b): (u16, u16) = (kani::any(), kani::any());
    let v = Version::new(a, b);
    assert!(v.major() == a, "major");
    assert!(v.minor() == b, "minor");
    assert!(Encode::len(&v) == 4, "announced length");
    let i: usize = kani::any();
    kani::assume(i < 4);
    bytes::model::set_probe(i);
    let mut w = BytesMut::new();
    v.encode(&mut w);
    assert!(w.len() == 4, "encoded length");
    let n = (a as u32) << 16 | b as u32;
    assert!(bytes::model::probed(&w) == (n >> (24 - 8 * i as u32)) as u8, "encoded byte");
}

/// Where the text goes.
struct Text {
    b: [u8; 16],
    n: usize,
}
impl Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let s = s.as_bytes();
        let mut k = 0;
        while k < s.len() {
            if self.n < 16 {
                self.b[self.n] = s[k];
            }
            self.n += 1;
            k += 1;
        }
        Ok(())
    }
}
impl Text {
    /// ensures the decimal number starting at `p`, without leading zeros, is `v`;
    /// returns where it ends
    fn number(&self, p: usize, v: u16) -> usize {
        let mut w = 0u32;
        let mut k = 0;
        while k < 5 {
            if p + k < self.n && self.b[p + k].is_ascii_digit() {
                w = w * 10 + (self.b[p + k] - b'0') as u32;
                k += 1;
            } else {
                break;
            }
        }
        assert!(k > 0 && w == v as u32, "displays another number");
        assert!(k == 1 || self.b[p] != b'0', "displays leading zeros");
        p + k
    }
}

/// Display: ensures "<major>.<minor>" in decimal
#[kani::proof]
#[kani::unwind(14)]
fn displays() {
    let (a, b): (u16, u16) = (kani::any(), kani::any());
    let mut t = Text { b: [0; 16], n: 0 };
    assert!(write!(t, "{}", Version::new(a, b)).is_ok(), "does not display");
    let p = t.number(0, a);
    assert!(p < t.n && t.b[p] == b'.', "displays no point");
    let p = t.number(p + 1, b);
    assert!(p == t.n, "displays something else");
}
