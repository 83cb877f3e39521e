//! Contracts of rapiddlt::dlt_v1 on the unmodified crate, discharged by Kani.
//! Every harness is a Hoare triple over a symbolic input of unbounded size
//! ({any bytes} call {postcondition}); none has a loop, so none has a bound.
#![cfg(kani)]
#![allow(dead_code)]

use matchit::searchable::SearchableMarkerTrait;
use matchit::FromBytesReadableTrait;
use rapiddlt::dlt_v1::*;
use zerocopy::AsBytes;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;

/// Any slice: any length up to 2^40, any contents. (CBMC objects are limited by the
/// width of its offsets; the code under contract only looks at the first 20 bytes and
/// at the length, a record is at most 65551 bytes.)
pub fn any_slice<'a>() -> &'a [u8] {
    let n: usize = kani::any();
    kani::assume(n <= (1usize << 40));
    if n == 0 {
        return &[];
    }
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, 1));
        std::slice::from_raw_parts(p, n)
    }
}

/// `a` is `b[from..to]`, byte for byte: same length and equal at an arbitrary index.
pub fn same_bytes(a: &[u8], b: &[u8], from: usize, to: usize) -> bool {
    if a.len() != to - from {
        return false;
    }
    let i: usize = kani::any();
    kani::assume(i < a.len() || a.is_empty());
    a.is_empty() || a[i] == b[from + i]
}

pub fn any_header<'a>() -> &'a DltStandardHeader {
    let b: [u8; 4] = kani::any();
    let b: &'a [u8] = Box::leak(Box::new(b));
    zerocopy::FromBytes::ref_from_prefix(b).unwrap()
}

/// The view of a parsed entry: (htyp, counter, length), through the serialised header.
pub fn view(h: &DltStandardHeader) -> (u8, u8, usize) {
    let b = h.as_bytes();
    (b[0], b[1], ((b[2] as usize) << 8) | b[3] as usize)
}
