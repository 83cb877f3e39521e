//! C01: reading one record is total and exact.
use super::*;

fn check_entry(b: &[u8], e: &DltStorageEntry, r: &spec::Record) {
    assert!(e.storage_header.secs.get() == r.secs, "seconds");
    assert!(e.storage_header.msecs.get() == r.usecs, "microseconds");
    assert!(e.storage_header.ecu == r.ecu, "ECU id of the storage header");
    assert!(e.storage_header.pattern == [b[0], b[1], b[2], b[3]], "pattern");
    check_message(b, 16, &e.dlt, &r.msg);
}

fn check_message(b: &[u8], at: usize, d: &DltEntry, m: &spec::Msg) {
    assert!(view(d.header) == (m.htyp, m.mcnt, m.len), "standard header");
    assert!(d.header.length() == m.len, "length field");
    assert!(same_bytes(d.tail, b, at + 4, at + m.len), "tail is the rest of the message");
}

/// {any bytes} DltStorageEntry::try_read(bytes) {result == spec::record(bytes)}
#[kani::proof]
fn c01_try_read_storage_entry() {
    let b = any_slice();
    match (DltStorageEntry::try_read(b), spec::record(b)) {
        (Some((n, e)), Some(r)) => {
            kani::cover!(r.total == 65535 + 16, "reachable: the longest record");
            kani::cover!(r.total == 20, "reachable: the shortest record");
            assert!(n == r.total, "bytes consumed");
            check_entry(b, &e, &r);
        }
        (None, None) => {
            kani::cover!(b.len() > 20, "reachable: rejected");
        }
        (Some(_), None) => panic!("accepted bytes that are not a complete record"),
        (None, Some(_)) => panic!("rejected a complete record"),
    }
}

/// {bytes start with the marker} try_read_valid_marker(bytes) {result == spec::record(bytes)}
#[kani::proof]
fn c01_try_read_valid_marker() {
    let b = any_slice();
    kani::assume(spec::marker_at(b));
    match (DltStorageEntry::try_read_valid_marker(b), spec::record(b)) {
        (Some((n, e)), Some(r)) => {
            kani::cover!(r.total == 65535 + 16, "reachable: the longest record");
            assert!(n == r.total, "bytes consumed");
            check_entry(b, &e, &r);
        }
        (None, None) => {
            kani::cover!(b.len() > 20, "reachable: rejected");
        }
        (Some(_), None) => panic!("accepted bytes that are not a complete record"),
        (None, Some(_)) => panic!("rejected a complete record"),
    }
}

/// Without the precondition the call still must not fault.
#[kani::proof]
fn c01_try_read_valid_marker_total() {
    let b = any_slice();
    let r = DltStorageEntry::try_read_valid_marker(b);
    kani::cover!(r.is_some());
    kani::cover!(r.is_none());
    if let Some((n, _)) = r {
        assert!(n <= b.len(), "never beyond the bytes");
    }
}

/// {any bytes} DltEntry::try_read(bytes) {result == spec::message(bytes)}
#[kani::proof]
fn c01_try_read_message() {
    let b = any_slice();
    match (DltEntry::try_read(b), spec::message(b)) {
        (Some((n, d)), Some(m)) => {
            kani::cover!(m.len == 65535, "reachable: the longest message");
            kani::cover!(m.len == 4, "reachable: the shortest message");
            assert!(n == m.len, "bytes consumed");
            check_message(b, 0, &d, &m);
        }
        (None, None) => {
            kani::cover!(b.len() > 4, "reachable: rejected");
        }
        (Some(_), None) => panic!("accepted bytes that are not a complete message"),
        (None, Some(_)) => panic!("rejected a complete message"),
    }
}
