//! C11 on the real code.
#[allow(unused_imports)]
use crate::{eq, holds};
use crate::rng::Rng;
use crate::Outcome;
use binate::connection::StreamIdProvider;
use dashmap::DashMap;

pub const SINGLE: bool = false;
pub const CASES: u64 = u64::MAX;

/// A provider in any state of its role; without the hook a new one.
#[cfg(binate_verif = "ids")]
fn provider(r: &mut Rng, client: bool) -> (StreamIdProvider, u32) {
    if r.chance(4) {
        return fresh(client);
    }
    let c = (r.int(32) as u32 & !1) | client as u32;
    (StreamIdProvider::verif_new(c as i32), c)
}
#[cfg(not(binate_verif = "ids"))]
fn provider(_: &mut Rng, client: bool) -> (StreamIdProvider, u32) {
    fresh(client)
}
fn fresh(client: bool) -> (StreamIdProvider, u32) {
    if client {
        (StreamIdProvider::new_for_client(), 1)
    } else {
        (StreamIdProvider::new_for_server(), 2)
    }
}

pub fn case(r: &mut Rng, _: u64) -> Outcome {
    let client = r.chance(2);
    let (p, mut c) = provider(r, client);
    r.log.push(format!("client {} state {:#x}", client, c));
    let store: DashMap<u32, u8> = DashMap::with_capacity(4);
    let dense = 1 + r.below(4);
    let span = 1 + r.below(24) as u32;
    for k in 0..span {
        if r.chance(dense) {
            // of this role and of the other
            let key = c.wrapping_add(k) & 0x7FFF_FFFF;
            if key != 0 {
                store.insert(key, 0);
                r.log.push(format!("in use {:#x}", key));
            }
        }
    }
    if r.chance(300) {
        // a long run of streams that stay open
        let n = 1 << r.below(15);
        r.log.push(format!("and the {} from {:#x} on", n, c));
        for k in 0..n {
            let key = c.wrapping_add(2 * k) & 0x7FFF_FFFF;
            if key != 0 {
                store.insert(key, 0);
            }
        }
    }
    let mut skipped = 0;
    for _ in 0..1 + r.below(20) {
        let id = p.next_stream_id(&store);
        holds!(id != 0, "stream ID 0");
        holds!(id < 1 << 31, "stream ID {:#x} of more than 31 bits", id);
        holds!(id & 1 == client as u32, "stream ID {:#x} with the wrong parity", id);
        holds!(!store.contains_key(&id), "stream ID {:#x} is in use", id);
        loop {
            let w = c & 0x7FFF_FFFF;
            c = c.wrapping_add(2);
            if w != 0 && !store.contains_key(&w) {
                eq!(id, w, "not the next free stream ID");
                break;
            }
            skipped += 1;
        }
        // streams come and go
        match r.below(4) {
            0 => {
                store.insert(id, 0);
            }
            1 => {
                store.insert((c & 0x7FFF_FFFF).max(1), 0);
            }
            2 => {
                store.remove(&id.wrapping_sub(2));
            }
            _ => (),
        }
    }
    Ok(format!("{} {} {}", client, skipped.min(5), c < 64))
}
