//! C15 on the real code.
#[allow(unused_imports)]
use crate::{eq, holds};
use crate::rng::Rng;
use crate::Outcome;
use binate::mimetype::WellKnownMimeType::{self, UNPARSEABLE};

#[path = "../../harness/src/registry.rs"]
mod registry;
use registry::*;

pub const SINGLE: bool = false;
pub const CASES: u64 = u64::MAX;

fn want(s: &str) -> WellKnownMimeType {
    REGISTRY.iter().find(|r| r.1 == s).map_or(UNPARSEABLE, |r| r.0)
}

pub fn case(r: &mut Rng, case: u64) -> Outcome {
    if case <= N as u64 {
        let (t, s) = if case == N as u64 { (UNPARSEABLE, "") } else { REGISTRY[case as usize] };
        r.log.push(format!("{:?}", t));
        let got: &'static str = t.into();
        eq!(got, s, "name of {:?}", t);
        eq!(WellKnownMimeType::from(s), t, "type of the name {:?}", s);
        return Ok("name".into());
    }
    // a name with something changed
    let mut v: Vec<char> = REGISTRY[r.below(N)].1.chars().collect();
    for _ in 0..r.below(3) {
        let at = r.below(v.len() + 1);
        let c = match r.below(5) {
            0 => ' ',
            1 => '\0',
            2 => char::from_u32(r.below(0xD800) as u32).unwrap(),
            _ => char::from(32 + r.below(95) as u8),
        };
        match r.below(5) {
            0 if at < v.len() => v[at] = c,
            1 => v.insert(at, c),
            2 if at < v.len() => {
                v.remove(at);
            }
            3 if at < v.len() => v[at] = if v[at].is_uppercase() { v[at].to_ascii_lowercase() } else { v[at].to_ascii_uppercase() },
            4 => v.truncate(at),
            _ => (),
        }
    }
    if r.chance(30) {
        v.extend(REGISTRY[r.below(N)].1.chars());
    }
    let s: String = v.into_iter().collect();
    r.log.push(format!("{:?}", s));
    eq!(WellKnownMimeType::from(&s[..]), want(&s), "type of {:?}", s);
    Ok(if want(&s) == UNPARSEABLE { "no name" } else { "name" }.into())
}
