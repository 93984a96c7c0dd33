//! C15: well-known MIME types.
use crate::gen::*;
use crate::registry::*;
use binate::mimetype::WellKnownMimeType::{self, UNPARSEABLE};

fn equal(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut k = 0;
    while k < LONGEST {
        if k < a.len() && a[k] != b[k] {
            return false;
        }
        k += 1;
    }
    true
}

/// From<WellKnownMimeType> for &str: ensures the registry's name
/// From<&str>(From<WellKnownMimeType>(t)) == t
fn name(k: usize) {
    let (t, want) = REGISTRY[k];
    let got: &'static str = t.into();
    assert!(equal(got.as_bytes(), want.as_bytes()), "wrong name");
    assert!(WellKnownMimeType::from(want) == t, "name is not converted to the type");
    assert!(WellKnownMimeType::from(got) == t, "name of a type is not converted back");
}
/// Names number `from` up to `from` + 8.
fn names(from: usize) {
    let mut k = from;
    while k < N && k < from + 8 {
        name(k);
        k += 1;
    }
}
macro_rules! groups {
    ($($name:ident $from:literal,)*) => { $(
        #[kani::proof]
        #[kani::unwind(49)]
        fn $name() { names($from) }
    )* };
}
groups! { names_0 0, names_8 8, names_16 16, names_24 24, names_32 32, names_40 40, }

#[kani::proof]
#[kani::unwind(49)]
fn no_name() {
    assert!(N == 47, "size of the registry");
    let s: &'static str = UNPARSEABLE.into();
    assert!(s.len() == 0, "name of UNPARSEABLE");
}

/// From<&str>(s): ensures the type of which the registry's name is s@, else UNPARSEABLE
fn string<const L: usize>() {
    let b: [u8; L] = kani::any();
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    let got = WellKnownMimeType::from(s);
    let mut want = UNPARSEABLE;
    let mut k = 0;
    while k < N {
        let (t, n) = REGISTRY[k];
        if n.len() == L && equal(n.as_bytes(), &b) {
            want = t;
        }
        k += 1;
    }
    kani::cover!(got == UNPARSEABLE, "unparseable");
    assert!(got == want, "a string is converted to another type than the one it names");
}

macro_rules! lengths {
    ($($name:ident $l:literal,)*) => { $(
        #[kani::proof]
        #[kani::unwind(49)]
        fn $name() { string::<$l>() }
    )* };
}
lengths! {
    len_0 0, len_1 1, len_2 2, len_3 3, len_4 4, len_5 5, len_6 6, len_7 7, len_8 8, len_9 9,
    len_10 10, len_11 11, len_12 12, len_13 13, len_14 14, len_15 15, len_16 16, len_17 17,
    len_18 18, len_19 19, len_20 20, len_21 21, len_22 22, len_23 23, len_24 24, len_25 25,
    len_26 26, len_27 27, len_28 28, len_29 29, len_30 30, len_31 31, len_32 32, len_33 33,
    len_34 34, len_35 35, len_36 36, len_37 37, len_38 38, len_39 39, len_40 40, len_41 41,
}

/// Longer than any name.
#[kani::proof]
#[kani::unwind(49)]
fn longer() {
    let b = raw(OBJ);
    kani::assume(b.len() > 41 && LONGEST <= 41);
    let s = unsafe { std::str::from_utf8_unchecked(b) };
    assert!(WellKnownMimeType::from(s) == UNPARSEABLE, "a string that names no type is converted to one");
}
