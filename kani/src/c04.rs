//! C04: message info byte, decode and encode.
use super::*;

pub fn code(t: &DltMessageType) -> (u8, u8) {
    use DltControlMessageTypeInfo::*;
    use DltLogMessageTypeInfo::*;
    use DltNetworkMessageTypeInfo::*;
    use DltTraceMessageTypeInfo::*;
    match t {
        DltMessageType::DltTypeLog(i) => (0, match i {
            DltLogFatal => 1, DltLogDltError => 2, DltLogWarn => 3, DltLogInfo => 4, DltLogDebug => 5, DltLogVerbose => 6,
        }),
        DltMessageType::DltTypeAppTrace(i) => (1, match i {
            DltTraceVariable => 1, DltTraceFunctionIn => 2, DltTraceFunctionOut => 3, DltTraceState => 4, DltTraceVfb => 5,
        }),
        DltMessageType::DltTypeNwTrace(i) => (2, match i {
            DltNwTraceIpc => 1, DltNwTraceCan => 2, DltNwTraceFlexray => 3, DltNwTraceMost => 4, DltNwTraceEthernet => 5, DltNwTraceSomeip => 6,
        }),
        DltMessageType::DltTypeControl(i) => (3, match i {
            DltControlRequest => 1, DltControlResponse => 2,
        }),
    }
}

pub fn any_type() -> DltMessageType {
    use DltControlMessageTypeInfo::*;
    use DltLogMessageTypeInfo::*;
    use DltNetworkMessageTypeInfo::*;
    use DltTraceMessageTypeInfo::*;
    let k: u8 = kani::any();
    kani::assume(k < 19);
    match k {
        0 => DltMessageType::DltTypeLog(DltLogFatal),
        1 => DltMessageType::DltTypeLog(DltLogDltError),
        2 => DltMessageType::DltTypeLog(DltLogWarn),
        3 => DltMessageType::DltTypeLog(DltLogInfo),
        4 => DltMessageType::DltTypeLog(DltLogDebug),
        5 => DltMessageType::DltTypeLog(DltLogVerbose),
        6 => DltMessageType::DltTypeAppTrace(DltTraceVariable),
        7 => DltMessageType::DltTypeAppTrace(DltTraceFunctionIn),
        8 => DltMessageType::DltTypeAppTrace(DltTraceFunctionOut),
        9 => DltMessageType::DltTypeAppTrace(DltTraceState),
        10 => DltMessageType::DltTypeAppTrace(DltTraceVfb),
        11 => DltMessageType::DltTypeNwTrace(DltNwTraceIpc),
        12 => DltMessageType::DltTypeNwTrace(DltNwTraceCan),
        13 => DltMessageType::DltTypeNwTrace(DltNwTraceFlexray),
        14 => DltMessageType::DltTypeNwTrace(DltNwTraceMost),
        15 => DltMessageType::DltTypeNwTrace(DltNwTraceEthernet),
        16 => DltMessageType::DltTypeNwTrace(DltNwTraceSomeip),
        17 => DltMessageType::DltTypeControl(DltControlRequest),
        _ => DltMessageType::DltTypeControl(DltControlResponse),
    }
}

#[kani::proof]
fn c04_decode() {
    let b: [u8; 1] = kani::any();
    let t: &MessageType = zerocopy::FromBytes::ref_from_prefix(&b[..]).unwrap();
    assert!(t.is_verbose() == (b[0] % 2 == 1), "verbose flag");
    let ty = t.message_type();
    assert!(ty.as_ref().map(code) == spec::mstp(b[0]), "message type and info");
    assert!(t.info() == (t.is_verbose(), ty), "info()");
    kani::cover!(ty.is_some());
    kani::cover!(ty.is_none());
}

#[kani::proof]
fn c04_encode() {
    let verbose: bool = kani::any();
    let ty = any_type();
    let m = MessageType::create_message_type(verbose, ty);
    let (t, i) = code(&ty);
    assert!(m.as_bytes()[0] == spec::msin(verbose, t, i), "encoded byte");
    assert!(m.is_verbose() == verbose && m.message_type() == Some(ty), "round trip");
    assert!(m.info() == (verbose, Some(ty)), "round trip of info()");
    kani::cover!(t == 3 && i == 2);
}
