//! Executable specification of the DLT v1 storage format as rapiddlt is meant to
//! read it. Written from the format (AUTOSAR PRS_Dlt, storage header of dlt-viewer),
//! not from the implementation. Shared by the Kani contracts (symbolic inputs) and by
//! the concrete replay engine, so that both judge by the same text.
//! Loop-free on purpose: a Kani harness over it stays loop-free.

pub const STORAGE: usize = 16;
pub const STANDARD: usize = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Msg {
    /// bytes of the message, without storage header
    pub len: usize,
    pub htyp: u8,
    pub mcnt: u8,
}

/// A message (standard header first) at the start of `b`: its length field covers the
/// standard header and the message is complete.
pub fn message(b: &[u8]) -> Option<Msg> {
    if b.len() < STANDARD {
        return None;
    }
    let len = ((b[2] as usize) << 8) | b[3] as usize;
    if len < STANDARD || len > b.len() {
        return None;
    }
    Some(Msg { len, htyp: b[0], mcnt: b[1] })
}

pub fn marker_at(b: &[u8]) -> bool {
    b.len() >= 4 && b[0] == b'D' && b[1] == b'L' && b[2] == b'T' && b[3] == 1
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Record {
    /// bytes of the record: storage header and message
    pub total: usize,
    pub secs: u32,
    pub usecs: i32,
    pub ecu: [u8; 4],
    pub msg: Msg,
}

/// What reading a record at the start of `b` has to give if the marker is not looked at.
pub fn record_unmarked(b: &[u8]) -> Option<Record> {
    if b.len() < STORAGE + STANDARD {
        return None;
    }
    let msg = message(&b[STORAGE..])?;
    Some(Record {
        total: STORAGE + msg.len,
        secs: le32(b, 4),
        usecs: le32(b, 8) as i32,
        ecu: [b[12], b[13], b[14], b[15]],
        msg,
    })
}

/// What reading a record at the start of `b` has to give.
pub fn record(b: &[u8]) -> Option<Record> {
    if marker_at(b) {
        record_unmarked(b)
    } else {
        None
    }
}

pub fn le32(b: &[u8], o: usize) -> u32 {
    (b[o] as u32) | ((b[o + 1] as u32) << 8) | ((b[o + 2] as u32) << 16) | ((b[o + 3] as u32) << 24)
}
pub fn be32(b: &[u8], o: usize) -> u32 {
    ((b[o] as u32) << 24) | ((b[o + 1] as u32) << 16) | ((b[o + 2] as u32) << 8) | (b[o + 3] as u32)
}

// ---- header type byte
pub fn ueh(h: u8) -> bool {
    h % 2 == 1
}
pub fn msbf(h: u8) -> bool {
    (h / 2) % 2 == 1
}
pub fn weid(h: u8) -> bool {
    (h / 4) % 2 == 1
}
pub fn wsid(h: u8) -> bool {
    (h / 8) % 2 == 1
}
pub fn wtms(h: u8) -> bool {
    (h / 16) % 2 == 1
}
pub fn vers(h: u8) -> u8 {
    h / 32
}

// ---- fields behind the standard header: [ecu][session][timestamp][extended header]payload
pub fn ecu_off(_h: u8) -> usize {
    0
}
pub fn session_off(h: u8) -> usize {
    if weid(h) { 4 } else { 0 }
}
pub fn timestamp_off(h: u8) -> usize {
    session_off(h) + if wsid(h) { 4 } else { 0 }
}
pub fn ext_off(h: u8) -> usize {
    timestamp_off(h) + if wtms(h) { 4 } else { 0 }
}
pub fn payload_off(h: u8) -> usize {
    ext_off(h) + if ueh(h) { 10 } else { 0 }
}

/// `tail`: the bytes of the message behind the standard header
pub fn ecu_id(h: u8, tail: &[u8]) -> Option<u32> {
    if weid(h) && tail.len() >= 4 { Some(be32(tail, 0)) } else { None }
}
pub fn timestamp(h: u8, tail: &[u8]) -> Option<u32> {
    let o = timestamp_off(h);
    if wtms(h) && tail.len() >= o + 4 { Some(be32(tail, o)) } else { None }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ext {
    pub msin: u8,
    pub noar: u8,
    pub apid: [u8; 4],
    pub ctid: [u8; 4],
}
pub fn extended(h: u8, tail: &[u8]) -> Option<Ext> {
    let o = ext_off(h);
    if ueh(h) && tail.len() >= o + 10 {
        Some(Ext {
            msin: tail[o],
            noar: tail[o + 1],
            apid: [tail[o + 2], tail[o + 3], tail[o + 4], tail[o + 5]],
            ctid: [tail[o + 6], tail[o + 7], tail[o + 8], tail[o + 9]],
        })
    } else {
        None
    }
}
/// offset of the payload in `tail`; the payload is everything from there on
pub fn payload(h: u8, tail: &[u8]) -> Option<usize> {
    let o = payload_off(h);
    if tail.len() >= o { Some(o) } else { None }
}

// ---- message info byte: bit 0 verbose, bits 1-3 type, bits 4-7 type info
/// (type, info) of a message info byte, None if not assigned by the format
pub fn mstp(msin: u8) -> Option<(u8, u8)> {
    let t = (msin / 2) % 8;
    let i = msin / 16;
    let max = match t {
        0 => 6, // log: fatal .. verbose
        1 => 5, // trace: variable .. vfb
        2 => 6, // network: ipc .. some/ip
        3 => 2, // control: request, response
        _ => 0,
    };
    if i >= 1 && i <= max { Some((t, i)) } else { None }
}
pub fn msin(verbose: bool, t: u8, i: u8) -> u8 {
    (if verbose { 1 } else { 0 }) + 2 * t + 16 * i
}
