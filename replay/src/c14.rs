//! C14 on the real code.
#[allow(unused_imports)]
use crate::{eq, holds};
use crate::rng::Rng;
use crate::Outcome;
use binate::connection::{ConnectionStatus, DuplexConnection, StreamIdProvider};
use binate::frame::Frame;
use binate::verif::machine;
use binate::{Flux, Mono, Payload, RSocket, Result};
use bytes::Bytes;
use std::error::Error as _;
use std::sync::{Arc, Mutex};

pub const SINGLE: bool = false;
pub const CASES: u64 = u64::MAX;

struct Link {
    sent: Arc<Mutex<Vec<(Frame, bool)>>>,
    refused: usize,
    name: String,
}
impl Link {
    fn keep(&self, f: Frame, waits: bool) -> Result<()> {
        let mut s = self.sent.lock().unwrap();
        s.push((f, waits));
        if s.len() - 1 == self.refused {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, self.name.clone()).into());
        }
        Ok(())
    }
}
impl DuplexConnection for Link {
    fn send(&self, frame: Frame) -> Mono<Result<()>> {
        let r = self.keep(frame, true);
        Box::pin(async move { r })
    }
    fn send_and_forget(&self, frame: Frame) -> Result<()> {
        self.keep(frame, false)
    }
    fn send_stream(&self, _: Flux<Frame>) {
        panic!("sends a stream of frames")
    }
    fn receive(&self) -> Flux<Frame> {
        Box::pin(tokio_stream::empty())
    }
    fn connect(&self) {
        panic!("opens the connection")
    }
    fn close(&self) {
        panic!("closes the connection")
    }
    fn connection_status(&self) -> Flux<ConnectionStatus> {
        Box::pin(tokio_stream::empty())
    }
}

fn part(r: &mut Rng, max: usize) -> Option<Bytes> {
    if r.chance(4) {
        return None;
    }
    let n = r.len(max);
    Some(Bytes::from(r.bytes(n)))
}

fn piece(p: &Option<Bytes>, k: usize, n: usize) -> Option<Bytes> {
    let v = p.as_ref()?;
    if k == 0 && v.is_empty() {
        return Some(v.clone());
    }
    let a = k.checked_mul(n).filter(|a| *a < v.len())?;
    Some(v.slice(a..a.saturating_add(n).min(v.len())))
}

fn name(e: &binate::Error) -> String {
    e.source().map_or("no source".into(), |s| s.to_string())
}

pub fn case(r: &mut Rng, _: u64) -> Outcome {
    let sent = Arc::new(Mutex::new(vec![]));
    let refused = if r.chance(2) { r.below(5) } else { usize::MAX };
    let broken = format!("broken {}", r.next());
    let link = Link { sent: sent.clone(), refused, name: broken.clone() };
    let client = r.chance(2);
    let ids = if client { StreamIdProvider::new_for_client() } else { StreamIdProvider::new_for_server() };
    let chunk = if r.chance(3) {
        None
    } else {
        Some(match r.below(4) {
            0 => usize::MAX - r.below(3),
            1 => 1 + r.len(3000),
            _ => 1 + r.below(20),
        })
    };
    r.log.push(format!("client {} chunk {:?} refused {}", client, chunk, refused));
    let s = machine(Arc::new(link), ids, chunk, tokio::time::Instant::now());
    let mut before = 0;
    let mut kind = String::new();
    let mut calls = 0;
    for call in 0..1 + r.below(4) as u32 {
        if r.chance(4) {
            let m = part(r, 70_000).unwrap_or_default();
            r.log.push(format!("metadata_push {}", m.len()));
            let out = tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(s.metadata_push(m.clone()));
            let l = sent.lock().unwrap();
            eq!(l.len(), before + 1, "frames sent");
            match &l[before].0 {
                Frame::MetadataPush(f) => holds!(*f.metadata() == m, "another metadata is pushed"),
                f => return Err(format!("metadata push sends {:?}", f)),
            }
            match out {
                Ok(()) => holds!(before != refused, "a refused frame is reported as sent"),
                Err(e) => {
                    holds!(before == refused, "fails although no frame was refused");
                    eq!(name(&e), broken, "error");
                }
            }
            before += 1;
            continue;
        }
        let (m, d) = (part(r, 5000), part(r, 5000));
        r.log.push(format!("fire_and_forget {:?} {:?}", m.as_ref().map(|b| b.len()), d.as_ref().map(|b| b.len())));
        let mut b = Payload::builder();
        if let Some(m) = &m {
            b = b.set_metadata(m.clone());
        }
        if let Some(d) = &d {
            b = b.set_data(d.clone());
        }
        let out = s.fire_and_forget(b.build());
        let id = (if client { 1 } else { 2 }) + 2 * calls;
        calls += 1;
        let (count, n) = match chunk {
            None => (1, usize::MAX),
            Some(n) => {
                let of = |p: &Option<Bytes>| p.as_ref().map_or(0, |v| if v.is_empty() { 1 } else { (v.len() - 1) / n + 1 });
                (of(&m).max(of(&d)), n)
            }
        };
        let fails = before <= refused && refused < before + count;
        let w = if fails { refused + 1 - before } else { count };
        let l = sent.lock().unwrap();
        eq!(l.len(), before + w, "frames sent (call {})", call);
        for k in 0..w {
            match &l[before + k] {
                (Frame::RequestFnf(f), false) => {
                    eq!(f.stream_id(), id, "stream of frame {}", k);
                    eq!(f.is_follows(), k + 1 != count, "FOLLOWS on frame {} of {}", k, count);
                    let (wm, wd) = if chunk.is_none() { (m.clone(), d.clone()) } else { (piece(&m, k, n), piece(&d, k, n)) };
                    holds!(f.metadata() == wm.as_ref(), "metadata of frame {}", k);
                    holds!(f.request_data() == wd.as_ref(), "data of frame {}", k);
                }
                (f, _) => return Err(format!("fire-and-forget sends {:?}", f)),
            }
        }
        before += w;
        match out {
            Ok(()) => holds!(!fails, "a refused frame is reported as sent"),
            Err(e) => {
                holds!(fails, "fails although no frame was refused");
                eq!(name(&e), broken, "error");
            }
        }
        kind = format!("{} {} {}", chunk.is_some(), count.min(4), fails);
    }
    Ok(format!("{} {}", kind, before.min(6)))
}
