//! C13 on the real code.
#[allow(unused_imports)]
use crate::{eq, holds};
use crate::rng::Rng;
use crate::Outcome;
use binate::connection::RequestCounter;
use std::sync::Barrier;

pub const SINGLE: bool = true;
pub const CASES: u64 = u64::MAX;

/// Several threads at once; the totals are known.
fn together(r: &mut Rng) -> Outcome {
    let start = r.int(16) as u32;
    let c = RequestCounter::new(start);
    let (threads, calls) = (2 + r.below(3), 50 + r.below(400));
    let adds: Vec<u32> = (0..threads).map(|_| r.below(4) as u32).collect();
    r.log.push(format!("start {} threads {} calls {} add {:?}", start, threads, calls, adds));
    let all = Barrier::new(threads);
    let seen: Vec<Vec<i32>> = std::thread::scope(|s| {
        let t: Vec<_> = adds
            .iter()
            .map(|n| {
                let (c, all, n) = (&c, &all, *n);
                s.spawn(move || {
                    all.wait();
                    let mut seen = vec![];
                    for _ in 0..calls {
                        if n == 0 {
                            seen.push(c.dec());
                        } else {
                            c.add(n);
                        }
                    }
                    seen
                })
            })
            .collect();
        t.into_iter().map(|t| t.join().unwrap()).collect()
    });
    let added: i64 = adds.iter().map(|n| *n as i64 * calls as i64).sum();
    let taken: i64 = adds.iter().filter(|n| **n == 0).count() as i64 * calls as i64;
    eq!(c.load() as i64, start as i64 + added - taken, "count after concurrent calls");
    if added == 0 {
        // every count on the way down is reported once
        let mut v: Vec<i64> = seen.into_iter().flatten().map(|x| x as i64).collect();
        v.sort();
        let w: Vec<i64> = (0..taken).map(|k| start as i64 - taken + 1 + k).collect();
        holds!(v == w, "concurrent `dec`s do not report every count once");
    }
    Ok(format!("together {} {}", added > 0, taken > 0))
}

pub fn case(r: &mut Rng, k: u64) -> Outcome {
    if k % 8 == 0 {
        return together(r);
    }
    let n = r.int(32) as u32;
    let c = RequestCounter::new(n);
    let mut w = (n & 0x7FFF_FFFF) as i64;
    r.log.push(format!("new {:#x}", n));
    let is = |c: &RequestCounter, w: i64| -> Result<(), String> {
        eq!(c.load() as i64, w, "load");
        eq!(c.is_zero(), w == 0, "is_zero");
        Ok(())
    };
    is(&c, w)?;
    for _ in 0..r.below(12) {
        if r.chance(2) {
            let room = 0x7FFF_FFFF - w;
            let n = match r.below(3) {
                0 => room as u64,
                1 => r.int(31),
                _ => r.below(5) as u64,
            };
            let n = n.min(room as u64) as u32;
            r.log.push(format!("add {:#x}", n));
            c.add(n);
            w += n as i64;
        } else if w > 0 {
            r.log.push("dec".into());
            eq!(c.dec() as i64, w, "dec");
            w -= 1;
        }
        is(&c, w)?;
    }
    Ok(format!("alone {}", w.min(3)))
}
