//! C02: the optional fields of a message are read exactly where the header type byte
//! says, or not at all.
use super::*;

/// Any message there can be: any header, any tail (also ones no length field describes).
fn any_entry<'a>() -> (u8, DltEntry<'a>) {
    let header = any_header();
    let e = DltEntry { header, tail: any_slice() };
    (view(header).0, e)
}

#[kani::proof]
fn c02_ecu_id() {
    let (h, e) = any_entry();
    let got = e.ecu_id();
    assert!(got == spec::ecu_id(h, e.tail), "ECU id");
    kani::cover!(got.is_some());
    kani::cover!(got.is_none() && spec::weid(h), "reachable: announced but missing");
}

#[kani::proof]
fn c02_timestamp() {
    let (h, e) = any_entry();
    let got = e.timestamp();
    assert!(got == spec::timestamp(h, e.tail), "timestamp");
    kani::cover!(got.is_some() && spec::weid(h) && spec::wsid(h));
    kani::cover!(got.is_none() && spec::wtms(h), "reachable: announced but missing");
}

#[kani::proof]
fn c02_extended_header() {
    let (h, e) = any_entry();
    let got = e.extended_header();
    kani::cover!(got.is_some());
    kani::cover!(got.is_none() && spec::ueh(h), "reachable: announced but missing");
    match (got, spec::extended(h, e.tail)) {
        (Some(x), Some(s)) => {
            assert!(x.msin.as_bytes()[0] == s.msin, "message info");
            assert!(x.noar == s.noar, "number of arguments");
            assert!(x.apid == s.apid, "application id");
            assert!(x.ctid == s.ctid, "context id");
        }
        (None, None) => {}
        (Some(_), None) => panic!("an extended header that is not there"),
        (None, Some(_)) => panic!("extended header not found"),
    }
}

#[kani::proof]
fn c02_payload() {
    let (h, e) = any_entry();
    let got = e.payload();
    kani::cover!(got.is_some());
    kani::cover!(got.is_none());
    match (got, spec::payload(h, e.tail)) {
        (Some(p), Some(o)) => {
            assert!(same_bytes(p, e.tail, o, e.tail.len()), "payload is the rest of the message")
        }
        (None, None) => {}
        (Some(_), None) => panic!("a payload that is not there"),
        (None, Some(_)) => panic!("payload not found"),
    }
}

/// The same through the reader: fields of a record that was read never come from bytes
/// outside of this record.
#[kani::proof]
fn c02_fields_of_read_record() {
    let b = any_slice();
    if let Some((n, e)) = DltStorageEntry::try_read(b) {
        let h = b[16];
        let tail = &b[20..n];
        assert!(e.dlt.ecu_id() == spec::ecu_id(h, tail), "ECU id");
        assert!(e.dlt.timestamp() == spec::timestamp(h, tail), "timestamp");
        assert!(e.dlt.extended_header().is_some() == spec::extended(h, tail).is_some(), "extended header");
        kani::cover!(e.dlt.extended_header().is_some() && e.dlt.timestamp().is_some());
        match (e.dlt.payload(), spec::payload(h, tail)) {
            (Some(p), Some(o)) => assert!(same_bytes(p, b, 20 + o, n), "payload"),
            (x, y) => assert!(x.is_none() && y.is_none(), "payload"),
        }
    }
}
