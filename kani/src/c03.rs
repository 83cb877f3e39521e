//! C03: header type byte, decode and encode.
use super::*;

#[kani::proof]
fn c03_decode() {
    let b: [u8; 1] = kani::any();
    let t: &DltHTyp = zerocopy::FromBytes::ref_from_prefix(&b[..]).unwrap();
    let h = b[0];
    assert!(t.is_extended_header() == spec::ueh(h), "extended header flag");
    assert!(t.is_msb_first() == spec::msbf(h), "MSB first flag");
    assert!(t.is_with_ecu_id() == spec::weid(h), "ECU id flag");
    assert!(t.is_with_session_id() == spec::wsid(h), "session id flag");
    assert!(t.is_with_timestamp() == spec::wtms(h), "timestamp flag");
    assert!(t.version() == spec::vers(h), "version");
    kani::cover!(h == 0xff);
}

#[kani::proof]
fn c03_encode() {
    let (u, m, e, s, t): (bool, bool, bool, bool, bool) = kani::any();
    let v: u8 = kani::any();
    kani::assume(v < 8);
    let x = DltHTyp::new(u, m, e, s, t, v);
    let h = x.as_bytes()[0];
    assert!(x.as_bytes().len() == 1);
    assert!(spec::ueh(h) == u && spec::msbf(h) == m && spec::weid(h) == e, "flags");
    assert!(spec::wsid(h) == s && spec::wtms(h) == t && spec::vers(h) == v, "flags, version");
    assert!(x.is_extended_header() == u && x.is_msb_first() == m && x.is_with_ecu_id() == e, "round trip");
    assert!(x.is_with_session_id() == s && x.is_with_timestamp() == t && x.version() == v, "round trip");
    kani::cover!(v == 7 && u && t);
}
