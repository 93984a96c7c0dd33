//! C10 on the real code.
#[allow(unused_imports)]
use crate::{eq, holds};
use crate::rng::{show, Rng};
use crate::Outcome;
use binate::verif::List;
use bytes::{Buf, Bytes};
use std::io::IoSlice;

pub const SINGLE: bool = false;
pub const CASES: u64 = u64::MAX;

/// Bytes whose chunks end at `ends`.
struct Parts {
    all: Bytes,
    ends: Vec<usize>,
    at: usize,
}

impl Buf for Parts {
    fn remaining(&self) -> usize {
        self.all.len() - self.at
    }
    fn chunk(&self) -> &[u8] {
        let e = self.ends.iter().find(|e| **e > self.at).copied().unwrap_or(self.all.len());
        &self.all[self.at..e]
    }
    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> usize {
        let mut at = self.at;
        let mut n = 0;
        while n < dst.len() && at < self.all.len() {
            let e = self.ends.iter().find(|e| **e > at).copied().unwrap_or(self.all.len());
            dst[n] = IoSlice::new(&self.all[at..e]);
            at = e;
            n += 1;
        }
        n
    }
    fn advance(&mut self, k: usize) {
        assert!(k <= self.remaining(), "an element is advanced past its end");
        self.at += k;
    }
}

fn is<T: Buf>(l: &List<T>, left: &[u8], r: &mut Rng) -> Result<(), String> {
    eq!(l.remaining(), left.len(), "remaining");
    eq!(l.has_remaining(), !left.is_empty(), "has_remaining");
    holds!(left.starts_with(l.chunk()), "chunk {} is not the start of {}", show(l.chunk()), show(left));
    holds!(left.is_empty() || !l.chunk().is_empty(), "empty chunk before the end");
    let mut dst = [IoSlice::new(&[]); 24];
    let room = r.below(25);
    let n = l.chunks_vectored(&mut dst[..room]);
    holds!(n <= room, "{} slices filled of {}", n, room);
    let mut at = 0;
    for s in &dst[..n] {
        holds!(!s.is_empty(), "empty slice");
        holds!(left[at..].starts_with(s), "slice {} is not at {} of {}", show(s), at, show(left));
        at += s.len();
    }
    holds!(n == room || at == left.len(), "slices left out: {} bytes of {}", at, left.len());
    Ok(())
}

fn run<T: Buf>(r: &mut Rng, make: impl Fn(&mut Rng, Vec<u8>) -> T) -> Outcome {
    let mut l = List::new();
    let mut left: Vec<u8> = vec![];
    let count = match r.below(64) {
        0 => r.below(300),
        1 => r.below(40),
        _ => r.below(7),
    };
    let mut kind = String::new();
    let mut push = |l: &mut List<T>, left: &mut Vec<u8>, r: &mut Rng| {
        let n = match r.below(4) {
            0 => 1,
            1 => 1 + r.below(3),
            _ => 1 + r.len(300),
        };
        let v = r.bytes(n);
        left.extend(&v);
        r.log.push(format!("push {}", n));
        l.push(make(r, v));
    };
    for _ in 0..count {
        push(&mut l, &mut left, r);
    }
    eq!(l.count(), count, "number of buffers");
    is(&l, &left, r)?;
    for _ in 0..r.below(8) {
        let first = l.chunk().len();
        let k = match r.below(5) {
            0 => first,
            1 => first + r.below(3),
            2 => left.len(),
            3 => first.saturating_sub(1),
            _ => r.below(left.len() + 1),
        };
        let fits = k <= left.len();
        match r.below(4) {
            0 => {
                push(&mut l, &mut left, r);
            }
            1 => {
                r.log.push(format!("advance {}", k));
                if !fits {
                    holds!(crate::panics(|| l.advance(k)), "advance by {} of {} is accepted", k, left.len());
                    return Ok("advance too far".into());
                }
                l.advance(k);
                left.drain(..k);
            }
            2 => {
                r.log.push(format!("copy {}", k));
                if !fits {
                    holds!(crate::panics(|| l.copy_to_bytes(k)), "copying {} of {} is accepted", k, left.len());
                    return Ok("copy too much".into());
                }
                let b = l.copy_to_bytes(k);
                holds!(b[..] == left[..k], "copies {} of {}", show(&b), show(&left[..k]));
                left.drain(..k);
            }
            _ => {
                let mut d = vec![0; k];
                r.log.push(format!("copy_to_slice {}", k));
                if !fits {
                    holds!(crate::panics(|| l.copy_to_slice(&mut d)), "copying {} of {} is accepted", k, left.len());
                    return Ok("copy too much".into());
                }
                l.copy_to_slice(&mut d);
                holds!(d[..] == left[..k], "copies {} of {}", show(&d), show(&left[..k]));
                left.drain(..k);
            }
        }
        kind = format!("{} {}", if k == first { "=" } else if k < first { "<" } else { ">" }, k.min(2));
        is(&l, &left, r)?;
    }
    Ok(format!("{} buffers, {} left: {}", count.min(7), left.len().min(2), kind))
}

pub fn case(r: &mut Rng, _: u64) -> Outcome {
    match r.below(3) {
        0 => run(r, |_, v| Bytes::from(v)),
        1 => run(r, |_, v| Bytes::from(v).chain(Bytes::new())),
        _ => run(r, |r, v| {
            let ends = (0..v.len()).filter(|_| r.chance(3)).collect();
            Parts { all: Bytes::from(v), ends, at: 0 }
        }),
    }
}
