//! Contracts of private functions of ripdlt, on the text of the program itself.
#![allow(dead_code, unused_imports)]
include!("/repo/ripdlt/src/main.rs");

#[cfg(kani)]
mod c23 {
    use super::*;

    /// any record: read from any 20 bytes that hold one
    fn any_record<'a>() -> DltStorageEntry<'a> {
        let b: [u8; 20] = kani::any();
        let b: &'a [u8] = Box::leak(Box::new(b));
        let r = DltStorageEntry::try_read(b);
        kani::assume(r.is_some());
        r.unwrap().1
    }
    fn secs(r: &DltStorageEntry) -> u32 {
        r.storage_header.secs.get()
    }
    fn same(a: &DltStorageEntry, b: &DltStorageEntry) -> bool {
        std::ptr::eq(&*a.storage_header, &*b.storage_header)
    }

    /// {a and b are periods} merge(a, b) {the union, iff they have a second in common}
    #[kani::proof]
    fn c23_merge_is_union() {
        let a = (any_record(), any_record());
        let b = (any_record(), any_record());
        kani::assume(secs(&a.0) <= secs(&a.1) && secs(&b.0) <= secs(&b.1));
        let m = merge_overlapping_timestamps(&a, &b);
        let lo = std::cmp::max(secs(&a.0), secs(&b.0));
        let hi = std::cmp::min(secs(&a.1), secs(&b.1));
        match &m {
            Some((s, e)) => {
                assert!(lo <= hi, "periods without a common second are merged");
                assert!(secs(s) == std::cmp::min(secs(&a.0), secs(&b.0)), "start of the union");
                assert!(secs(e) == std::cmp::max(secs(&a.1), secs(&b.1)), "end of the union");
                assert!(secs(s) <= secs(e), "a period starts before it ends");
                assert!(same(s, &a.0) || same(s, &b.0), "the start is the first record of one of them");
                assert!(same(e, &a.1) || same(e, &b.1), "the end is the last record of one of them");
            }
            None => assert!(lo > hi, "periods with a common second are not merged"),
        }
        kani::cover!(m.is_some() && secs(&a.0) < secs(&b.0));
        kani::cover!(m.is_some() && secs(&a.0) > secs(&b.0));
        kani::cover!(m.is_none());
    }
    /// the order of the arguments does not matter for the period
    #[kani::proof]
    fn c23_merge_is_symmetric() {
        let a = (any_record(), any_record());
        let b = (any_record(), any_record());
        kani::assume(secs(&a.0) <= secs(&a.1) && secs(&b.0) <= secs(&b.1));
        let m = merge_overlapping_timestamps(&a, &b);
        let n = merge_overlapping_timestamps(&b, &a);
        match (&m, &n) {
            (Some(x), Some(y)) => assert!(secs(&x.0) == secs(&y.0) && secs(&x.1) == secs(&y.1), "the same period"),
            (None, None) => (),
            _ => assert!(false, "merged in one order only"),
        }
        kani::cover!(m.is_some());
    }
}
