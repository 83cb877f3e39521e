//! C01 .. C06 against the executable specification.
use crate::ensure;
use crate::recs::*;
use crate::src::{Src, R};
use matchit::searchable::SearchableMarkerTrait;
use matchit::FromBytesReadableTrait;
use rapiddlt::dlt_v1::*;
use zerocopy::AsBytes;

fn any(s: &mut Src) -> Vec<u8> {
    match s.below(4) {
        0 | 1 => {
            let mut v = dlt_record(&dlt_fields(s));
            for _ in 0..s.below(3) {
                let k = s.below(v.len());
                v[k] = s.u8();
            }
            match s.below(3) {
                0 => {
                    let k = s.below(v.len() + 1);
                    v.truncate(k)
                }
                1 => {
                    let k = s.below(8);
                    v.extend(s.bytes(k))
                }
                _ => {}
            }
            v
        }
        2 => dlt_bytes(s, true),
        _ => {
            let k = s.below(40);
            let mut v = if s.one_in(2) { b"DLT\x01".to_vec() } else { vec![] };
            v.extend(s.bytes(k));
            if v.len() >= 20 && s.one_in(2) {
                v[18] = 0;
                v[19] = s.below(30) as u8;
            }
            v
        }
    }
}
fn same(b: &[u8], at: usize, d: &DltEntry, m: &spec::Msg) -> Result<(), String> {
    ensure!(d.header.as_bytes() == &b[at..at + 4], "header {:?}, must be {:?}", d.header, &b[at..at + 4]);
    ensure!(d.header.length() == m.len, "length {}, must be {}", d.header.length(), m.len);
    ensure!(d.tail == &b[at + 4..at + m.len], "tail {}, must be {}", hex(d.tail), hex(&b[at + 4..at + m.len]));
    Ok(())
}
fn same_record(b: &[u8], x: Option<(usize, DltStorageEntry)>, w: Option<spec::Record>, what: &str) -> Result<(), String> {
    match (x, w) {
        (Some((n, e)), Some(r)) => {
            ensure!(n == r.total, "{}: {} bytes read, must be {}", what, n, r.total);
            ensure!(e.storage_header.pattern[..] == b[..4], "{}: pattern {:?}", what, e.storage_header.pattern);
            ensure!(e.storage_header.secs.get() == r.secs && e.storage_header.msecs.get() == r.usecs && e.storage_header.ecu == r.ecu,
                "{}: storage header {:?}, must be {:?}", what, e.storage_header, r);
            same(b, 16, &e.dlt, &r.msg)
        }
        (None, None) => Ok(()),
        (x, w) => Err(format!("{}: read {:?}, must be {:?}", what, x, w)),
    }
}
pub fn c01(s: &mut Src) -> R {
    let b = any(s);
    s.note(|| format!("bytes={}", hex(&b)));
    let w = spec::record(&b);
    same_record(&b, DltStorageEntry::try_read(&b), w, "try_read")?;
    if spec::marker_at(&b) {
        same_record(&b, DltStorageEntry::try_read_valid_marker(&b), w, "try_read_valid_marker")?;
    } else if let Some((n, _)) = DltStorageEntry::try_read_valid_marker(&b) {
        ensure!(n <= b.len(), "read behind the end");
    }
    let x = DltEntry::try_read(&b);
    match (x, spec::message(&b)) {
        (Some((n, d)), Some(m)) => {
            ensure!(n == m.len, "message: {} bytes read, must be {}", n, m.len);
            same(&b, 0, &d, &m)?;
        }
        (None, None) => {}
        (x, w) => return Err(format!("message: read {:?}, must be {:?}", x, w)),
    }
    Ok(w.is_some())
}
pub fn c02(s: &mut Src) -> R {
    let mut f = dlt_fields(s);
    if s.one_in(2) {
        let k = s.below(30);
        f.tail = s.bytes(k);
        f.htyp = s.u8();
    }
    let b = dlt_record(&f);
    s.note(|| format!("bytes={}", hex(&b)));
    let r = fields_of(&b, f.htyp, &f.tail);
    // another message in the same memory
    let mut b = b;
    for _ in 0..s.below(3) {
        let h = s.u8();
        b[16] = h;
        let k = s.below(b.len());
        if k >= 20 {
            b[k] = s.u8();
        }
        let t = b[20..].to_vec();
        s.note(|| format!("then in the same memory {}", hex(&b)));
        fields_of(&b, h, &t)?;
    }
    r
}
fn fields_of(b: &[u8], h: u8, t: &[u8]) -> R {
    let Some((_, e)) = DltStorageEntry::try_read(b) else { return Err("not read".into()) };
    ensure!(e.dlt.ecu_id() == spec::ecu_id(h, t), "ecu_id {:?}, must be {:?}", e.dlt.ecu_id(), spec::ecu_id(h, t));
    ensure!(e.dlt.timestamp() == spec::timestamp(h, t), "timestamp {:?}, must be {:?}", e.dlt.timestamp(), spec::timestamp(h, t));
    let x = e.dlt.extended_header().map(|x| {
        let b = x.as_bytes();
        spec::Ext { msin: b[0], noar: x.noar, apid: x.apid, ctid: x.ctid }
    });
    ensure!(x == spec::extended(h, t), "extended_header {:?}, must be {:?}", x, spec::extended(h, t));
    let w = spec::payload(h, t).map(|o| &t[o..]);
    ensure!(e.dlt.payload() == w, "payload {:?}, must be {:?}", e.dlt.payload(), w);
    Ok(!t.is_empty())
}
pub fn c03(s: &mut Src) -> R {
    let h = s.u8();
    let v = s.below(8) as u8;
    s.note(|| format!("header type byte={:#x}, version={}", h, v));
    let b = [h, 0, 0, 4];
    let (_, d) = DltEntry::try_read(&b).ok_or("not read")?;
    let t = &d.header.header_type;
    let got = (t.is_extended_header(), t.is_msb_first(), t.is_with_ecu_id(), t.is_with_session_id(), t.is_with_timestamp(), t.version());
    let want = (spec::ueh(h), spec::msbf(h), spec::weid(h), spec::wsid(h), spec::wtms(h), spec::vers(h));
    ensure!(got == want, "read {:?}, must be {:?}", got, want);
    let n = DltHTyp::new(spec::ueh(h), spec::msbf(h), spec::weid(h), spec::wsid(h), spec::wtms(h), v);
    let w = (h & 31) + 32 * v;
    ensure!(n.as_bytes() == [w], "written {:?}, must be {:#x}", n.as_bytes(), w);
    Ok(true)
}
fn number(t: DltMessageType) -> (u8, u8) {
    use DltMessageType::*;
    match t {
        DltTypeLog(i) => (0, match i {
            DltLogMessageTypeInfo::DltLogFatal => 1,
            DltLogMessageTypeInfo::DltLogDltError => 2,
            DltLogMessageTypeInfo::DltLogWarn => 3,
            DltLogMessageTypeInfo::DltLogInfo => 4,
            DltLogMessageTypeInfo::DltLogDebug => 5,
            DltLogMessageTypeInfo::DltLogVerbose => 6,
        }),
        DltTypeAppTrace(i) => (1, match i {
            DltTraceMessageTypeInfo::DltTraceVariable => 1,
            DltTraceMessageTypeInfo::DltTraceFunctionIn => 2,
            DltTraceMessageTypeInfo::DltTraceFunctionOut => 3,
            DltTraceMessageTypeInfo::DltTraceState => 4,
            DltTraceMessageTypeInfo::DltTraceVfb => 5,
        }),
        DltTypeNwTrace(i) => (2, match i {
            DltNetworkMessageTypeInfo::DltNwTraceIpc => 1,
            DltNetworkMessageTypeInfo::DltNwTraceCan => 2,
            DltNetworkMessageTypeInfo::DltNwTraceFlexray => 3,
            DltNetworkMessageTypeInfo::DltNwTraceMost => 4,
            DltNetworkMessageTypeInfo::DltNwTraceEthernet => 5,
            DltNetworkMessageTypeInfo::DltNwTraceSomeip => 6,
        }),
        DltTypeControl(i) => (3, match i {
            DltControlMessageTypeInfo::DltControlRequest => 1,
            DltControlMessageTypeInfo::DltControlResponse => 2,
        }),
    }
}
pub fn c04(s: &mut Src) -> R {
    let m = s.u8();
    s.note(|| format!("message info byte={:#x}", m));
    let mut t = [0u8; 10];
    t[0] = m;
    let b = dlt_record(&Fields { htyp: 0x21, tail: t.to_vec(), ..Default::default() });
    let (_, e) = DltStorageEntry::try_read(&b).ok_or("not read")?;
    let x = e.dlt.extended_header().ok_or("no extended header")?.msin;
    let got = x.message_type().map(number);
    ensure!(got == spec::mstp(m), "message type {:?}, must be {:?}", got, spec::mstp(m));
    ensure!(x.is_verbose() == (m % 2 == 1), "verbose {:?}", x.is_verbose());
    ensure!(x.info() == (x.is_verbose(), x.message_type()), "info {:?}", x.info());
    if let Some(t) = x.message_type() {
        let c = MessageType::create_message_type(m % 2 == 1, t);
        ensure!(c.as_bytes() == [m], "written {:?}, must be {:#x}", c.as_bytes(), m);
        let c = MessageType::create_message_type(m % 2 == 0, t);
        ensure!(c.as_bytes() == [m ^ 1], "written {:?}, must be {:#x}", c.as_bytes(), m ^ 1);
    }
    Ok(got.is_some())
}
pub fn c05(s: &mut Src) -> R {
    let (secs, us, h, c) = (s.u32(), s.u32() as i32, s.u8(), s.u8());
    let pat = if s.one_in(4) { [s.u8(), 1, 2, 3] } else { *b"DLT\x01" };
    let ecu = [s.u8(), s.u8(), s.u8(), s.u8()];
    let (m, noar) = (s.u8(), s.u8());
    let (ap, ct) = ([s.u8(), 1, s.u8(), 3], [9, s.u8(), 3, s.u8()]);
    let pay = s.below(20);
    let pay = s.bytes(pay);
    s.note(|| format!("secs={} us={} htyp={:#x} counter={} pattern={:?} ecu={:?} msin={:#x} noar={} apid={:?} ctid={:?} payload={:?}", secs, us, h, c, pat, ecu, m, noar, ap, ct, pay));
    let sh = DltStorageHeader::new(pat, secs, us, ecu);
    let mut w = pat.to_vec();
    w.extend(secs.to_le_bytes());
    w.extend(us.to_le_bytes());
    w.extend(ecu);
    ensure!(sh.as_bytes() == w, "storage header {:?}, must be {:?}", sh.as_bytes(), w);
    let t = DltHTyp::new(spec::ueh(h), spec::msbf(h), spec::weid(h), spec::wsid(h), spec::wtms(h), h / 32);
    let len = 4 + 10 * (spec::ueh(h) as usize) + 4 * (spec::weid(h) as usize + spec::wsid(h) as usize + spec::wtms(h) as usize) + pay.len();
    let big = s.u32() as u16;
    let x = DltStandardHeader::new(DltHTyp::new(false, false, false, false, false, 0), c, big);
    ensure!(x.as_bytes() == [0, c, (big >> 8) as u8, big as u8], "standard header {:?} for length {}", x.as_bytes(), big);
    let sd = DltStandardHeader::new(t, c, len as u16);
    ensure!(sd.as_bytes() == [h, c, (len >> 8) as u8, len as u8], "standard header {:?}", sd.as_bytes());
    let mt = spec::mstp(m);
    let msin = find_type(m).map(|t| MessageType::create_message_type(m % 2 == 1, t));
    let mut b = w.clone();
    b[..4].copy_from_slice(b"DLT\x01");
    b.extend(sd.as_bytes());
    if spec::weid(h) {
        b.extend(b"ECUX");
    }
    if spec::wsid(h) {
        b.extend([0, 0, 1, 2]);
    }
    if spec::wtms(h) {
        b.extend([1, 2, 3, c]);
    }
    if spec::ueh(h) {
        let eh = DltExtendedHeader::new(msin.unwrap_or(MessageType::create_message_type(false, find_type(0x41).unwrap())), noar, ap, ct);
        let mut want = vec![if mt.is_some() { m } else { 0x40 }, noar];
        want.extend(ap);
        want.extend(ct);
        ensure!(eh.as_bytes() == want, "extended header {:?}, must be {:?}", eh.as_bytes(), want);
        b.extend(eh.as_bytes());
    }
    b.extend(&pay);
    let (n, e) = DltStorageEntry::try_read(&b).ok_or("not read back")?;
    ensure!(n == b.len(), "read back {} of {} bytes", n, b.len());
    ensure!(e.dlt.payload() == Some(&pay[..]), "payload {:?}", e.dlt.payload());
    ensure!(e.storage_header.secs.get() == secs && e.storage_header.msecs.get() == us && e.storage_header.ecu == ecu, "storage header {:?}", e.storage_header);
    ensure!(e.dlt.timestamp() == spec::wtms(h).then_some(u32::from_be_bytes([1, 2, 3, c])), "timestamp {:?}", e.dlt.timestamp());
    ensure!(e.dlt.ecu_id() == spec::weid(h).then_some(u32::from_be_bytes(*b"ECUX")), "ecu {:?}", e.dlt.ecu_id());
    Ok(true)
}
fn find_type(m: u8) -> Option<DltMessageType> {
    use DltMessageType::*;
    let (t, i) = spec::mstp(m)?;
    Some(match (t, i) {
        (0, 1) => DltTypeLog(DltLogMessageTypeInfo::DltLogFatal),
        (0, 2) => DltTypeLog(DltLogMessageTypeInfo::DltLogDltError),
        (0, 3) => DltTypeLog(DltLogMessageTypeInfo::DltLogWarn),
        (0, 4) => DltTypeLog(DltLogMessageTypeInfo::DltLogInfo),
        (0, 5) => DltTypeLog(DltLogMessageTypeInfo::DltLogDebug),
        (0, 6) => DltTypeLog(DltLogMessageTypeInfo::DltLogVerbose),
        (1, 1) => DltTypeAppTrace(DltTraceMessageTypeInfo::DltTraceVariable),
        (1, 2) => DltTypeAppTrace(DltTraceMessageTypeInfo::DltTraceFunctionIn),
        (1, 3) => DltTypeAppTrace(DltTraceMessageTypeInfo::DltTraceFunctionOut),
        (1, 4) => DltTypeAppTrace(DltTraceMessageTypeInfo::DltTraceState),
        (1, 5) => DltTypeAppTrace(DltTraceMessageTypeInfo::DltTraceVfb),
        (2, 1) => DltTypeNwTrace(DltNetworkMessageTypeInfo::DltNwTraceIpc),
        (2, 2) => DltTypeNwTrace(DltNetworkMessageTypeInfo::DltNwTraceCan),
        (2, 3) => DltTypeNwTrace(DltNetworkMessageTypeInfo::DltNwTraceFlexray),
        (2, 4) => DltTypeNwTrace(DltNetworkMessageTypeInfo::DltNwTraceMost),
        (2, 5) => DltTypeNwTrace(DltNetworkMessageTypeInfo::DltNwTraceEthernet),
        (2, 6) => DltTypeNwTrace(DltNetworkMessageTypeInfo::DltNwTraceSomeip),
        (3, 1) => DltTypeControl(DltControlMessageTypeInfo::DltControlRequest),
        (3, 2) => DltTypeControl(DltControlMessageTypeInfo::DltControlResponse),
        _ => return None,
    })
}
pub fn c06(s: &mut Src) -> R {
    let b = any(s);
    let k = s.below(b.len() + 1);
    s.note(|| format!("bytes={} cut={}", hex(&b), k));
    ensure!(DltStorageEntry::marker() == b"DLT\x01", "marker {:?}", DltStorageEntry::marker());
    let x = DltStorageEntry::try_read(&b);
    if let Some((n, e)) = &x {
        ensure!(e.len() == *n && *n > 4 && *n <= b.len() && *n <= DltStorageEntry::max_len(), "len {}, bytes read {}, of {}, max_len {}", e.len(), n, b.len(), DltStorageEntry::max_len());
        ensure!(b.starts_with(b"DLT\x01"), "read without marker");
    }
    if let Some((n, e)) = DltEntry::try_read(&b) {
        ensure!(e.len() == n && n >= 1 && n <= b.len() && n <= DltEntry::max_len(), "message: len {}, bytes read {}, of {}", e.len(), n, b.len());
    }
    ensure!(DltStorageEntry::max_len() >= 65551 && DltEntry::max_len() >= 65535, "max_len");
    let v = |x: &Option<(usize, DltStorageEntry)>| x.as_ref().map(|(n, e)| (*n, e.dlt.header.as_bytes().to_vec(), e.dlt.tail.to_vec(), e.storage_header.as_bytes().to_vec()));
    if spec::marker_at(&b) {
        let y = DltStorageEntry::try_read_valid_marker(&b);
        ensure!(v(&x) == v(&y), "try_read {:?}, try_read_valid_marker {:?}", x, y);
    }
    let c = DltStorageEntry::try_read(&b[..k]);
    match &x {
        Some((n, _)) if *n <= k => ensure!(v(&x) == v(&c), "whole {:?}, cut behind the record {:?}", x, c),
        _ => ensure!(c.is_none(), "whole {:?}, cut {:?}", x, c),
    }
    Ok(x.is_some())
}
