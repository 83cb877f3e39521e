//! C05: headers that are built serialise to the wire format and read back unchanged.
use super::*;

#[kani::proof]
fn c05_storage_header() {
    let (pattern, ecu): ([u8; 4], [u8; 4]) = kani::any();
    let (secs, usecs): (u32, i32) = kani::any();
    let h = DltStorageHeader::new(pattern, secs, usecs, ecu);
    let b = h.as_bytes();
    assert!(b.len() == 16, "size");
    assert!([b[0], b[1], b[2], b[3]] == pattern, "pattern");
    assert!(spec::le32(b, 4) == secs, "seconds, little endian");
    assert!(spec::le32(b, 8) == usecs as u32, "microseconds, little endian");
    assert!([b[12], b[13], b[14], b[15]] == ecu, "ECU id");
    assert!(h.secs.get() == secs && h.msecs.get() == usecs && h.ecu == ecu && h.pattern == pattern, "fields");
    kani::cover!(usecs < 0);
}

#[kani::proof]
fn c05_standard_header() {
    let (u, m, e, s, t): (bool, bool, bool, bool, bool) = kani::any();
    let v: u8 = kani::any();
    kani::assume(v < 8);
    let (cnt, len): (u8, u16) = kani::any();
    let htyp = DltHTyp::new(u, m, e, s, t, v);
    let hb = htyp.as_bytes()[0];
    let h = DltStandardHeader::new(htyp, cnt, len);
    let b = h.as_bytes();
    assert!(b.len() == 4, "size");
    assert!(b[0] == hb && b[1] == cnt, "header type, counter");
    assert!(b[2] == (len >> 8) as u8 && b[3] == (len & 0xff) as u8, "length, big endian");
    assert!(h.length() == len as usize, "length()");
    kani::cover!(len == 0x1234);
}

#[kani::proof]
fn c05_extended_header() {
    let verbose: bool = kani::any();
    let msin = MessageType::create_message_type(verbose, super::c04::any_type());
    let mb = msin.as_bytes()[0];
    let noar: u8 = kani::any();
    let (apid, ctid): ([u8; 4], [u8; 4]) = kani::any();
    let h = DltExtendedHeader::new(msin, noar, apid, ctid);
    let b = h.as_bytes();
    assert!(b.len() == 10, "size");
    assert!(b[0] == mb && b[1] == noar, "message info, arguments");
    assert!([b[2], b[3], b[4], b[5]] == apid, "application id");
    assert!([b[6], b[7], b[8], b[9]] == ctid, "context id");
    kani::cover!(noar == 255);
}

/// A whole record: built, laid out one after the other, read back. Any field values, any
/// payload (unbounded: the rest of an arbitrary slice).
#[kani::proof]
fn c05_record_round_trip() {
    let b = any_slice();
    let (u, e, s, t): (bool, bool, bool, bool) = kani::any();
    let (secs, usecs, ecu): (u32, i32, [u8; 4]) = kani::any();
    let (cnt, len): (u8, u16) = kani::any();
    kani::assume(len >= 4 && b.len() >= 16 + len as usize);
    let sh = DltStorageHeader::new([b'D', b'L', b'T', 1], secs, usecs, ecu);
    let h = DltStandardHeader::new(DltHTyp::new(u, false, e, s, t, 1), cnt, len);
    let x = sh.as_bytes();
    let y = h.as_bytes();
    // the built headers are what stands in the file
    kani::assume(b[0] == x[0] && b[1] == x[1] && b[2] == x[2] && b[3] == x[3]);
    kani::assume(b[4] == x[4] && b[5] == x[5] && b[6] == x[6] && b[7] == x[7]);
    kani::assume(b[8] == x[8] && b[9] == x[9] && b[10] == x[10] && b[11] == x[11]);
    kani::assume(b[12] == x[12] && b[13] == x[13] && b[14] == x[14] && b[15] == x[15]);
    kani::assume(b[16] == y[0] && b[17] == y[1] && b[18] == y[2] && b[19] == y[3]);
    let (n, r) = DltStorageEntry::try_read(b).expect("a built record is read");
    kani::cover!(len == 65535);
    assert!(n == 16 + len as usize, "size");
    assert!(r.storage_header.secs.get() == secs && r.storage_header.msecs.get() == usecs, "time");
    assert!(r.storage_header.ecu == ecu, "ECU id");
    let ht = &r.dlt.header.header_type;
    assert!(ht.is_extended_header() == u && ht.is_with_ecu_id() == e, "flags");
    assert!(ht.is_with_session_id() == s && ht.is_with_timestamp() == t && ht.version() == 1, "flags");
    assert!(view(r.dlt.header).1 == cnt && r.dlt.header.length() == len as usize, "counter, length");
    assert!(same_bytes(r.dlt.tail, b, 20, n), "tail");
}
