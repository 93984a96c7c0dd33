//! Reads a real frame through its public accessors.
#![allow(dead_code)]
use crate::spec::*;
use binate::frame::Frame;
use bytes::Bytes;

fn o<'a>(b: Option<&'a Bytes>) -> Option<&'a [u8]> {
    match b {
        Some(x) => Some(&x[..]),
        None => None,
    }
}

fn f(b: bool, bit: u16) -> u16 {
    if b {
        bit
    } else {
        0
    }
}

/// The duration in milliseconds; `u64::MAX` if it is not a whole number of them.
#[cfg(not(kani))]
pub fn millis(d: std::time::Duration) -> u64 {
    if d.subsec_nanos() % 1_000_000 == 0 {
        d.as_millis() as u64
    } else {
        u64::MAX
    }
}

/// The same, under `stubs::from_millis_contract`.
#[cfg(kani)]
pub fn millis(d: std::time::Duration) -> u64 {
    crate::stubs::as_millis(d)
}

/// Everything the accessors say. `mm`/`dm` are empty when the accessor says
/// `None` (not ASCII); see `mimes` for the distinction.
pub fn observe<'a>(fr: &'a Frame) -> D<'a> {
    observe_as(fr, 0)
}

/// The same for a frame that has to be of type `ty` (0: of any type).
pub fn observe_as<'a>(fr: &'a Frame, ty: u8) -> D<'a> {
    match fr {
        Frame::Setup(x) if ty == 0 || ty == SETUP => D {
            flags: f(x.is_resume(), B7) | f(x.is_lease(), B6),
            major: x.version().major(),
            minor: x.version().minor(),
            n1: millis(x.keepalive_interval()),
            n2: millis(x.keepalive_timeout()),
            token: o(x.resume_token()),
            mm: x.metadata_mimetype().unwrap_or("").as_bytes(),
            dm: x.data_mimetype().unwrap_or("").as_bytes(),
            meta: o(x.metadata()),
            data: o(x.data()),
            ..blank(SETUP)
        },
        Frame::Lease(x) if ty == 0 || ty == LEASE => D {
            n1: millis(x.ttl()),
            n2: x.number_of_requests() as u64,
            meta: o(x.metadata()),
            ..blank(LEASE)
        },
        Frame::Keepalive(x) if ty == 0 || ty == KEEPALIVE => D {
            flags: f(x.is_respond(), B7),
            n1: x.last_received_position(),
            data: o(x.data()),
            ..blank(KEEPALIVE)
        },
        Frame::RequestResponse(x) if ty == 0 || ty == REQUEST_RESPONSE => D {
            stream: x.stream_id(),
            flags: f(x.is_follows(), B7),
            meta: o(x.metadata()),
            data: o(x.data()),
            ..blank(REQUEST_RESPONSE)
        },
        Frame::RequestFnf(x) if ty == 0 || ty == REQUEST_FNF => D {
            stream: x.stream_id(),
            flags: f(x.is_follows(), B7),
            meta: o(x.metadata()),
            data: o(x.request_data()),
            ..blank(REQUEST_FNF)
        },
        Frame::RequestStream(x) if ty == 0 || ty == REQUEST_STREAM => D {
            stream: x.stream_id(),
            flags: f(x.is_follows(), B7),
            n1: x.initial_request_n() as u64,
            meta: o(x.metadata()),
            data: o(x.data()),
            ..blank(REQUEST_STREAM)
        },
        Frame::RequestChannel(x) if ty == 0 || ty == REQUEST_CHANNEL => D {
            stream: x.stream_id(),
            flags: f(x.is_follows(), B7) | f(x.is_complete(), B6),
            n1: x.initial_request_n() as u64,
            meta: o(x.metadata()),
            data: o(x.data()),
            ..blank(REQUEST_CHANNEL)
        },
        Frame::RequestN(x) if ty == 0 || ty == REQUEST_N => {
            D { stream: x.stream_id(), n1: x.request_n() as u64, ..blank(REQUEST_N) }
        }
        Frame::Cancel(x) if ty == 0 || ty == CANCEL => D { stream: x.stream_id(), ..blank(CANCEL) },
        Frame::Payload(x) if ty == 0 || ty == PAYLOAD => D {
            stream: x.stream_id(),
            flags: f(x.is_follows(), B7) | f(x.is_complete(), B6) | f(x.is_next(), B5),
            meta: o(x.metadata()),
            data: o(x.data()),
            ..blank(PAYLOAD)
        },
        Frame::Error(x) if ty == 0 || ty == ERROR => D {
            stream: x.stream_id(),
            n1: x.error_code() as u64,
            data: o(x.data()),
            ..blank(ERROR)
        },
        Frame::MetadataPush(x) if ty == 0 || ty == METADATA_PUSH => {
            D { meta: Some(&x.metadata()[..]), ..blank(METADATA_PUSH) }
        }
        Frame::Resume(x) if ty == 0 || ty == RESUME => D {
            major: x.version().major(),
            minor: x.version().minor(),
            token: Some(&x.resume_token()[..]),
            n1: x.last_received_server_position(),
            n2: x.first_available_client_position(),
            ..blank(RESUME)
        },
        Frame::ResumeOk(x) if ty == 0 || ty == RESUME_OK => D { n1: x.last_received_server_position(), ..blank(RESUME_OK) },
        _ => panic!("not a frame of the type its header names"),
    }
}
