//! C08 on the real code.
#[allow(unused_imports)]
use crate::{eq, holds};
use crate::rng::Rng;
use crate::Outcome;
use binate::Payload;
use bytes::Bytes;

pub const SINGLE: bool = false;
pub const CASES: u64 = u64::MAX;

/// A part: absent, or any length; mostly short, sometimes long, rarely beyond 24 bits.
fn part(r: &mut Rng) -> Option<Bytes> {
    if r.chance(4) {
        return None;
    }
    let n = match r.below(4000) {
        0 => (1 << 24) + r.below(5) - 2,
        1..=40 => (1 << 16) + r.below(70_000) - 2,
        _ => r.len(70_000),
    };
    let mut v = vec![0; n];
    let s = r.next();
    for (i, x) in v.iter_mut().enumerate() {
        *x = (s as usize ^ i.wrapping_mul(0x9E37_79B9) >> 7) as u8;
    }
    r.log.push(format!("{} bytes", n));
    Some(Bytes::from(v))
}

fn announced(p: &Option<Bytes>, n: usize) -> usize {
    match p {
        None => 0,
        Some(v) if v.is_empty() => 1,
        Some(v) => (v.len() - 1) / n + 1,
    }
}

fn take(p: &Option<Bytes>, k: usize, n: usize) -> Option<Bytes> {
    let v = p.as_ref()?;
    if k == 0 && v.is_empty() {
        return Some(v.clone());
    }
    let a = k.checked_mul(n).filter(|a| *a < v.len())?;
    Some(v.slice(a..a.saturating_add(n).min(v.len())))
}

pub fn case(r: &mut Rng, _: u64) -> Outcome {
    let (m, d) = (part(r), part(r));
    let l = [&m, &d].iter().map(|p| p.as_ref().map_or(0, |v| v.len())).max().unwrap();
    let n = match r.below(8) {
        0 => (l + r.below(3)).saturating_sub(1),
        1 => (l / 2 + r.below(3)).saturating_sub(1),
        2 => (l / 3 + r.below(3)).saturating_sub(1),
        3 => usize::MAX - r.below(3),
        4 => (1usize << r.below(64)).wrapping_add(r.below(3)).wrapping_sub(1),
        5 => r.int(64) as usize,
        _ => 1 + r.below(9),
    };
    // no more than about 4,000 chunks
    let n = n.max(l / 4000).max(1);
    r.log.push(format!("n = {}", n));
    let mut b = Payload::builder();
    if let Some(m) = &m {
        b = b.set_metadata(m.clone());
    }
    if let Some(d) = &d {
        b = b.set_data(d.clone());
    }
    let mut c = b.build().chunks(n);
    let q = announced(&m, n).max(announced(&d, n));
    let skip = r.chance(8);
    let mut k = 0;
    while k < q {
        eq!(ExactSizeIterator::len(&c), q - k, "announced before chunk {}", k);
        eq!(c.size_hint(), (q - k, Some(q - k)), "size_hint before chunk {}", k);
        let p = if skip && k + 2 < q {
            k += 2;
            c.nth(2)
        } else {
            c.next()
        };
        holds!(p.is_some(), "ends before chunk {} of {}", k, q);
        let (pm, pd) = p.unwrap().split();
        let same = |a: &Option<Bytes>, b: &Option<Bytes>| a == b;
        holds!(same(&pm, &take(&m, k, n)), "metadata of chunk {}: {:?} bytes or wrong bytes, expected {:?}", k,
            pm.map(|b| b.len()), take(&m, k, n).map(|b| b.len()));
        holds!(same(&pd, &take(&d, k, n)), "data of chunk {}: {:?} bytes or wrong bytes, expected {:?}", k,
            pd.map(|b| b.len()), take(&d, k, n).map(|b| b.len()));
        k += 1;
    }
    for _ in 0..3 {
        eq!(ExactSizeIterator::len(&c), 0, "announced at the end");
        eq!(c.size_hint(), (0, Some(0)), "size_hint at the end");
        holds!(c.next().is_none(), "goes on after the end");
    }
    holds!(crate::panics(|| Payload::builder().set_data("x").build().chunks(0)), "chunk size 0 is accepted");
    let kind = |p: &Option<Bytes>| p.as_ref().map(|v| (v.len().min(2), v.len() > n, v.len() % n == 0));
    Ok(format!("{:?} {:?} {}", kind(&m), kind(&d), q.min(4)))
}
