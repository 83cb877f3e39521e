//! C06: what the generic search and partitioning code demands of a record type
//! (the laws of the Verus trait contracts in overlays/), shown for DltStorageEntry.
use super::*;

/// The marker is not empty and no proper prefix of it is a suffix of it: occurrences
/// of it never overlap.
#[kani::proof]
fn c06_marker() {
    let m = DltStorageEntry::marker();
    assert!(m.len() == 4 && m[0] == b'D' && m[1] == b'L' && m[2] == b'T' && m[3] == 1, "marker");
    let k: usize = kani::any();
    kani::assume(0 < k && k < 4);
    // m[k..] == m[..4-k] for no k
    assert!(m[k] != m[0] || (k < 3 && m[k + 1] != m[1]) || (k < 2 && m[k + 2] != m[2]), "unbordered");
}

/// len() of what was read is what was consumed, more than the marker, within the bytes
/// and at most max_len().
#[kani::proof]
fn c06_length_of_records() {
    let b = any_slice();
    if let Some((n, e)) = DltStorageEntry::try_read(b) {
        kani::cover!(n == 65551);
        assert!(e.len() == n, "len() is the number of bytes read");
        assert!(n > DltStorageEntry::marker().len(), "more than the marker");
        assert!(n <= b.len(), "within the bytes");
        assert!(n <= DltStorageEntry::max_len(), "at most max_len()");
        assert!(spec::marker_at(b), "starts with the marker");
    }
}

#[kani::proof]
fn c06_length_of_messages() {
    let b = any_slice();
    if let Some((n, e)) = DltEntry::try_read(b) {
        kani::cover!(n == 65535);
        assert!(e.len() == n, "len() is the number of bytes read");
        assert!(n >= 1 && n <= b.len(), "within the bytes");
        assert!(n <= DltEntry::max_len(), "at most max_len()");
    }
}

/// Both ways of reading agree where the marker is.
#[kani::proof]
fn c06_readers_agree() {
    let b = any_slice();
    let x = DltStorageEntry::try_read(b);
    if spec::marker_at(b) {
        let y = DltStorageEntry::try_read_valid_marker(b);
        kani::cover!(y.is_some());
        match (x, y) {
            (Some((n, e)), Some((m, f))) => {
                assert!(n == m && e.len() == f.len(), "same length");
                assert!(e.dlt.tail.len() == f.dlt.tail.len(), "same tail");
                assert!(view(e.dlt.header) == view(f.dlt.header), "same header");
            }
            (x, y) => assert!(x.is_none() && y.is_none(), "both or none"),
        }
    } else {
        assert!(x.is_none(), "no record without the marker");
    }
}

/// Bytes behind a record do not matter: cutting the slice anywhere behind the record
/// gives the same record, cutting it within the record gives none.
#[kani::proof]
fn c06_prefix_stable() {
    let b = any_slice();
    let k: usize = kani::any();
    kani::assume(k <= b.len());
    let whole = DltStorageEntry::try_read(b);
    let cut = DltStorageEntry::try_read(&b[..k]);
    match whole {
        Some((n, e)) if n <= k => {
            kani::cover!(k < b.len());
            let (m, f) = cut.expect("still read");
            assert!(n == m && e.dlt.tail.len() == f.dlt.tail.len(), "same record");
            assert!(view(e.dlt.header) == view(f.dlt.header), "same record");
        }
        _ => assert!(cut.is_none(), "no record out of nothing"),
    }
}
