//! C20 on the real code.
#[allow(unused_imports)]
use crate::{eq, holds};
use crate::rng::{show, Rng};
use crate::Outcome;
use binate::{Payload, PayloadBuilder};
use bytes::Bytes;

pub const SINGLE: bool = false;
pub const CASES: u64 = u64::MAX;

fn text(v: &Option<Vec<u8>>) -> Result<String, ()> {
    match v {
        None => Ok(String::new()),
        Some(v) => String::from_utf8(v.clone()).map_err(|_| ()),
    }
}

fn part(r: &mut Rng) -> Vec<u8> {
    let n = r.len(12);
    let mut v = match r.below(3) {
        0 => r.bytes(n),
        1 => "aé€😀z".repeat(1 + n / 8).into_bytes(),
        _ => (0..n).map(|_| 32 + r.below(95) as u8).collect(),
    };
    if r.chance(3) {
        v.truncate(r.below(v.len() + 1));
    }
    v
}

pub fn case(r: &mut Rng, _: u64) -> Outcome {
    let mut w: (Option<Vec<u8>>, Option<Vec<u8>>) = (None, None);
    let mut b = if r.chance(2) { Payload::builder() } else { PayloadBuilder::new() };
    for _ in 0..r.below(5) {
        let v = part(r);
        let meta = r.chance(2);
        r.log.push(format!("{} {}", if meta { "metadata" } else { "data" }, show(&v)));
        if meta {
            w.0 = Some(v.clone());
        } else {
            w.1 = Some(v.clone());
        }
        let is_text = String::from_utf8(v.clone()).ok().filter(|_| r.chance(2));
        b = match (meta, r.below(2), is_text) {
            (true, _, Some(s)) => b.set_metadata(s),
            (false, _, Some(s)) => b.set_data(s),
            (true, 0, _) => b.set_metadata(v),
            (true, _, _) => b.set_metadata(Bytes::from(v)),
            (false, 0, _) => b.set_data(v),
            (false, _, _) => b.set_data(Bytes::from(v)),
        };
    }
    let p = b.build();
    eq!(p.metadata().map(|b| b.to_vec()), w.0, "metadata");
    eq!(p.data().map(|b| b.to_vec()), w.1, "data");
    eq!((p.has_metadata(), p.has_data()), (w.0.is_some(), w.1.is_some()), "has_metadata, has_data");
    let n = w.0.as_ref().map_or(0, |v| v.len()) + w.1.as_ref().map_or(0, |v| v.len());
    eq!(p.len(), n, "len");
    eq!(p.is_empty(), n == 0, "is_empty");
    eq!(p.metadata_utf8().map(String::from).map_err(|_| ()), text(&w.0), "metadata_utf8");
    eq!(p.data_utf8().map(String::from).map_err(|_| ()), text(&w.1), "data_utf8");
    let c = p.clone();
    eq!(c, p, "clone");
    let (m, d) = p.split();
    eq!((m.map(|b| b.to_vec()), d.map(|b| b.to_vec())), w, "split");
    Ok(format!("metadata {:?} data {:?} {:?}", w.0.map(|v| v.len().min(3)), w.1.as_ref().map(|v| v.len().min(3)), text(&w.1).is_ok()))
}
