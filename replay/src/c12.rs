//! C12 on the real code: threads that ask at the same time.
#[allow(unused_imports)]
use crate::{eq, holds};
use crate::rng::Rng;
use crate::Outcome;
use binate::connection::StreamIdProvider;
use dashmap::DashMap;
use std::sync::Barrier;

pub const SINGLE: bool = true;
pub const CASES: u64 = u64::MAX;

/// A provider in any state from which the calls do not wrap around; without the hook a new one.
#[cfg(binate_verif = "ids")]
fn provider(r: &mut Rng, client: bool) -> StreamIdProvider {
    if r.chance(3) {
        return fresh(client);
    }
    let c = if r.chance(2) {
        // just before a number with many zero bits
        let k = 8 + r.below(22);
        (((r.int(31) as u32 >> k) + 1) << k).saturating_sub(2 * r.below(700) as u32)
    } else {
        r.int(31) as u32
    };
    let c = c.min((1 << 31) - 4096) & !1;
    StreamIdProvider::verif_new((c | client as u32) as i32)
}
#[cfg(not(binate_verif = "ids"))]
fn provider(_: &mut Rng, client: bool) -> StreamIdProvider {
    fresh(client)
}
fn fresh(client: bool) -> StreamIdProvider {
    if client { StreamIdProvider::new_for_client() } else { StreamIdProvider::new_for_server() }
}

pub fn case(r: &mut Rng, _: u64) -> Outcome {
    let client = r.chance(2);
    let p = provider(r, client);
    let store: DashMap<u32, ()> = DashMap::new();
    let used = r.below(3);
    for _ in 0..used * 8 {
        store.insert(1 + r.below(200) as u32, ());
    }
    let (threads, calls) = (2 + r.below(3), 1 + r.below(300));
    r.log.push(format!("client {} {:?} threads {} calls {} in use {:?}", client, p, threads, calls,
        store.iter().map(|e| *e.key()).collect::<Vec<_>>()));
    let all = Barrier::new(threads);
    let mut ids: Vec<u32> = std::thread::scope(|s| {
        let t: Vec<_> = (0..threads)
            .map(|_| {
                s.spawn(|| {
                    all.wait();
                    (0..calls).map(|_| p.next_stream_id(&store)).collect::<Vec<_>>()
                })
            })
            .collect();
        t.into_iter().flat_map(|t| t.join().unwrap()).collect()
    });
    ids.sort();
    for w in ids.windows(2) {
        holds!(w[0] != w[1], "two calls get the stream ID {}", w[0]);
    }
    for i in &ids {
        holds!(!store.contains_key(i), "a stream ID in use ({})", i);
    }
    Ok(format!("{} {} {}", client, threads, used))
}
