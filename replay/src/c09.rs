//! C09 on the real code.
#[allow(unused_imports)]
use crate::{eq, holds};
use crate::mk::{frame, payload, Args};
use crate::rng::{show, Rng};
use crate::spec::*;
use crate::Outcome;
use binate::frame::codec::*;
use binate::frame::{Encode, Flags, Frame};
use binate::verif::List;
use binate::Payload;
use bytes::{Bytes, BytesMut};

pub const SINGLE: bool = false;
pub const CASES: u64 = u64::MAX;

fn encode(f: &Frame) -> Bytes {
    let mut b = BytesMut::new();
    f.encode(&mut b);
    b.freeze()
}

fn parts(p: &Payload) -> (Option<Vec<u8>>, Option<Vec<u8>>) {
    (p.metadata().map(|b| b.to_vec()), p.data().map(|b| b.to_vec()))
}

fn some(v: Vec<u8>) -> Option<Vec<u8>> {
    Some(v).filter(|v| !v.is_empty())
}

/// The frame that carries one piece.
fn carrier(r: &mut Rng, kind: usize, sid: u32, follows: bool, p: Payload) -> Frame {
    match kind {
        0 => Frame::Payload(PayloadFrame::new(sid, if follows { Flags::FOLLOWS } else { Flags::COMPLETE }, p)),
        1 => Frame::RequestFnf(RequestFnfFrame::new(sid, follows, p)),
        2 => Frame::RequestResponse(RequestResponseFrame::new(sid, follows, p)),
        3 => Frame::RequestStream(RequestStreamFrame::new(sid, follows, 1 + r.below(9) as u32, p)),
        _ => Frame::RequestChannel(RequestChannelFrame::new(sid, follows, false, 1, p)),
    }
}

/// A chunked payload comes back.
fn round(r: &mut Rng) -> Outcome {
    let part = |r: &mut Rng| {
        if r.chance(4) {
            return None;
        }
        let n = r.len(3000);
        Some(&*Box::leak(r.bytes(n).into_boxed_slice()))
    };
    let (m, d) = (part(r), part(r));
    let l = m.map_or(0, |m| m.len()).max(d.map_or(0, |d| d.len()));
    let n = (1 + r.below(l + 2)).max(l / 200);
    r.log.push(format!("metadata {:?} data {:?} n = {}", m.map(|m| m.len()), d.map(|d| d.len()), n));
    let kind = r.below(5);
    let mut list = List::new();
    let chunks: Vec<Payload> = payload(m, d).chunks(n).collect();
    let last = chunks.len();
    for (k, c) in chunks.into_iter().enumerate() {
        let kind = if k == 0 { kind } else { 0 };
        list.push(encode(&carrier(r, kind, 1, k + 1 != last, c)));
    }
    let p = list.into_payload().map_err(|e| format!("reassembling a chunked payload fails: {:?}", e))?;
    let w = (m.and_then(|m| some(m.to_vec())), d.and_then(|d| some(d.to_vec())));
    holds!(parts(&p) == w, "a payload chunked by {} does not come back: {:?}, expected {:?}", n, parts(&p), w);
    Ok(format!("round {} {} {}", kind, last.min(4), l.min(2)))
}

pub fn case(r: &mut Rng, _: u64) -> Outcome {
    if r.chance(4) {
        return round(r);
    }
    let mut list = List::new();
    let (mut m, mut d, mut error) = (vec![], vec![], None);
    let count = match r.below(8) {
        0 if r.chance(16) => r.below(400),
        0 => r.below(40),
        _ => r.below(6),
    };
    let mut kind = String::new();
    for _ in 0..count {
        let (b, f) = match r.below(12) {
            // bytes that are no frame, or a damaged one
            0 => {
                let n = 1 + r.len(20);
                (Bytes::from(r.bytes(n)), None)
            }
            1 => {
                let ty = [PAYLOAD, REQUEST_FNF, SETUP, REQUEST_STREAM, CANCEL, RESUME][r.below(6)];
                let mut v = encode(&frame(r, ty, Args::Valid).0).to_vec();
                let n = 1 + r.below(v.len());
                v.truncate(n);
                (Bytes::from(v), None)
            }
            2..=4 => {
                let ty = [SETUP, LEASE, KEEPALIVE, REQUEST_N, CANCEL, ERROR, METADATA_PUSH, RESUME, RESUME_OK][r.below(9)];
                let f = frame(r, ty, Args::Valid);
                (encode(&f.0), Some(f))
            }
            _ => {
                let ty = [PAYLOAD, REQUEST_FNF, REQUEST_RESPONSE, REQUEST_STREAM, REQUEST_CHANNEL][r.below(5)];
                let f = frame(r, ty, Args::Valid);
                (encode(&f.0), Some(f))
            }
        };
        r.log.push(format!("fragment {}", show(&b)));
        let carries = |f: &Frame| {
            matches!(f, Frame::Payload(_) | Frame::RequestFnf(_) | Frame::RequestResponse(_) | Frame::RequestStream(_)
                | Frame::RequestChannel(_))
        };
        match f {
            Some((f, w)) => {
                if carries(&f) {
                    m.extend(w.meta.unwrap_or(&[]));
                    d.extend(w.data.unwrap_or(&[]));
                }
            }
            None => match Frame::decode(&mut b.clone()) {
                Err(e) => {
                    error.get_or_insert(e);
                }
                Ok(f) => {
                    if carries(&f) {
                        let w = crate::obs::observe(&f);
                        m.extend(w.meta.unwrap_or(&[]));
                        d.extend(w.data.unwrap_or(&[]));
                    }
                }
            },
        }
        kind = format!("{}", error.is_some());
        list.push(b);
    }
    match (list.into_payload(), error) {
        (Ok(p), None) => {
            let w = (some(m), some(d));
            holds!(parts(&p) == w, "reassembled {:?}, expected {:?}", parts(&p), w);
        }
        (Err(e), Some(w)) => eq!(e, w, "error"),
        (Ok(_), Some(w)) => return Err(format!("a fragment does not decode ({:?}), reassembly succeeds", w)),
        (Err(e), None) => return Err(format!("every fragment decodes, reassembly fails: {:?}", e)),
    }
    Ok(format!("{} {}", count.min(5), kind))
}
