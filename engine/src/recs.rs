//! Two record types: the DLT record, and a small one made for this check that is dense
//! enough for short random bytes to hold nested, cut and overlapping records.
use crate::src::Src;
use matchit::searchable::SearchableMarkerTrait;
use matchit::FromBytesReadableTrait;
use rapiddlt::dlt_v1::DltStorageEntry;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Toy<'b> {
    pub all: &'b [u8],
}
pub const TOY_MAX: usize = 12;
fn toy(b: &[u8]) -> Option<usize> {
    if b.len() < 3 {
        return None;
    }
    let n = b[2] as usize;
    if n < 3 || n > TOY_MAX || n > b.len() {
        return None;
    }
    Some(n)
}
impl<'b> FromBytesReadableTrait<'b> for Toy<'b> {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> {
        if b.len() < 2 || &b[..2] != b"DL" {
            return None;
        }
        Self::try_read_valid_marker(b)
    }
    fn len(&self) -> usize {
        self.all.len()
    }
    fn max_len() -> usize {
        TOY_MAX
    }
}
impl<'b> SearchableMarkerTrait<'b> for Toy<'b> {
    fn marker() -> &'static [u8] {
        b"DL"
    }
    fn try_read_valid_marker(b: &'b [u8]) -> Option<(usize, Self)> {
        let n = toy(b)?;
        Some((n, Toy { all: &b[..n] }))
    }
}

pub trait Rec<'b>: SearchableMarkerTrait<'b> + Clone + std::fmt::Debug {
    const MARK: &'static [u8];
    const MAX: usize;
    const NAME: &'static str;
    /// length of the record at the start of b: the oracle
    fn spec(b: &[u8]) -> Option<usize>;
    /// where in base this record is, and its length
    fn place(&self, base: &[u8]) -> (usize, usize);
    fn gen(s: &mut Src) -> Vec<u8>;
}
fn at(base: &[u8], p: *const u8) -> usize {
    (p as usize).wrapping_sub(base.as_ptr() as usize)
}
impl<'b> Rec<'b> for Toy<'b> {
    const MARK: &'static [u8] = b"DL";
    const MAX: usize = TOY_MAX;
    const NAME: &'static str = "toy";
    fn spec(b: &[u8]) -> Option<usize> {
        if b.starts_with(b"DL") { toy(b) } else { None }
    }
    fn place(&self, base: &[u8]) -> (usize, usize) {
        (at(base, self.all.as_ptr()), self.all.len())
    }
    fn gen(s: &mut Src) -> Vec<u8> {
        if s.one_in(2500) {
            // more records, or more markers without one, than 16 bits can count
            let n = s.pick(&[256usize, 4097, 65536, 66000]);
            let mut v = s.pick(&[&b"DL\x03"[..], b"DL", b"DL\x00", b"DL\x04x", b"DL\x03W", b"DL\x05x", b"DL\x04", b"DL\x09", b"DL\x40zz"]).repeat(n);
            v.extend(b"DL\x04W");
            return v;
        }
        let n = s.below(9);
        let mut v = vec![];
        let body = |s: &mut Src, v: &mut Vec<u8>, k: usize| {
            let end = v.len() + k;
            while v.len() < end {
                match s.below(8) {
                    0 => v.push(b'D'),
                    1 => v.push(b'L'),
                    2 | 3 => v.extend([b'D', b'L', 2 + s.below(12) as u8]),
                    4 => v.push(s.below(14) as u8),
                    5 => v.extend(b"DL"),
                    6 => v.push(b'x'),
                    _ => v.push(s.pick(b"abHW\n\xff \t#\0\r")),
                }
            }
            v.truncate(end);
        };
        let gap = if s.one_in(400) { s.below(n + 1) } else { 99 };
        for i in 0..=n {
            if i == gap {
                v.extend(long_gap(s));
            }
            if i == n {
                break;
            }
            match s.below(8) {
                0 | 1 | 2 | 3 => {
                    let k = s.range(3, 12);
                    v.extend([b'D', b'L', k as u8]);
                    body(s, &mut v, k - 3);
                }
                4 => v.extend([b'D', b'L', s.pick(&[0, 1, 2, 13, 14, 255])]),
                5 => {
                    let k = s.below(20);
                    body(s, &mut v, k);
                }
                6 => {
                    let k = s.below(5);
                    body(s, &mut v, k);
                }
                _ => v.extend(vec![b'.'; s.below(30)]),
            }
        }
        if s.one_in(3) && !v.is_empty() {
            let k = v.len() - s.below(v.len().min(12));
            v.truncate(k);
        }
        v
    }
}
impl<'b> Rec<'b> for DltStorageEntry<'b> {
    const MARK: &'static [u8] = b"DLT\x01";
    const MAX: usize = 65535 + 16;
    const NAME: &'static str = "dlt";
    fn spec(b: &[u8]) -> Option<usize> {
        spec::record(b).map(|r| r.total)
    }
    fn place(&self, base: &[u8]) -> (usize, usize) {
        let a = at(base, self.storage_header as *const _ as *const u8);
        let h = at(base, self.dlt.header as *const _ as *const u8);
        let t = at(base, self.dlt.tail.as_ptr());
        if h != a.wrapping_add(16) || !self.dlt.tail.is_empty() && t != h.wrapping_add(4) {
            return (usize::MAX, usize::MAX);
        }
        (a, 20 + self.dlt.tail.len())
    }
    fn gen(s: &mut Src) -> Vec<u8> {
        dlt_bytes(s, true)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Fields {
    pub secs: u32,
    pub usecs: i32,
    pub ecu: [u8; 4],
    pub htyp: u8,
    pub mcnt: u8,
    pub tail: Vec<u8>,
}
pub fn dlt_record(f: &Fields) -> Vec<u8> {
    let mut v = b"DLT\x01".to_vec();
    v.extend(f.secs.to_le_bytes());
    v.extend(f.usecs.to_le_bytes());
    v.extend(f.ecu);
    v.push(f.htyp);
    v.push(f.mcnt);
    v.extend(((f.tail.len() + 4) as u16).to_be_bytes());
    v.extend(&f.tail);
    v
}
pub fn dlt_fields(s: &mut Src) -> Fields {
    let htyp = match s.below(4) {
        0 => 0x31,
        1 => 0x3d,
        _ => s.u8(),
    };
    let mut tail = vec![];
    if htyp & 4 != 0 {
        tail.extend(s.pick(&[*b"ECU1", *b"ECU2", [0, 0, 0, 1]]));
    }
    if htyp & 8 != 0 {
        tail.extend([0, 0, 0, s.u8()]);
    }
    if htyp & 16 != 0 {
        tail.extend(((s.below(6) as u32) * 9_000_000 + s.below(5000) as u32).to_be_bytes());
    }
    if htyp & 1 != 0 {
        tail.extend([s.u8(), s.u8()]);
        tail.extend(b"APP1CTX1");
    }
    match s.below(6) {
        0 => tail.extend(b"Hello World"),
        1 => tail.extend(b"Hallo  World!"),
        2 => {
            let k = s.below(24);
            tail.extend(s.bytes(k))
        }
        3 => {
            let k = s.below(tail.len() + 1);
            tail.truncate(k)
        }
        _ => {}
    }
    let ecu = if s.one_in(3) { [s.u8(), s.u8(), s.u8(), s.u8()] } else { s.pick(&[*b"E001", *b"E002", [0xff, 0x80, 0, 1]]) };
    Fields { secs: s.below(40) as u32, usecs: s.below(1000) as i32, ecu, htyp, mcnt: s.u8(), tail }
}
/// many bytes without a marker
fn long_gap(s: &mut Src) -> Vec<u8> {
    let k = s.pick(&[70_000, 140_000, 1_100_000, 2_100_000]);
    vec![s.pick(&[b'.', 0x11]); k - s.below(9)]
}
pub fn dlt_bytes(s: &mut Src, broken: bool) -> Vec<u8> {
    let mut v = vec![];
    if s.one_in(2500) {
        // more records, or more markers without one, than 16 bits can count
        let n = s.pick(&[256usize, 4097, 65536, 66000]);
        if broken && s.one_in(3) {
            v = b"DLT\x01".repeat(n);
        } else {
            let mut f = dlt_fields(s);
            f.tail.truncate(12);
            let step = s.pick(&[0usize, 1, 3, 1000]);
            // a record that ends within the next one
            let cut = if broken { s.pick(&[0usize, 0, 1, 3, 6]) } else { 0 };
            for i in 0..n {
                f.secs = (i * step % 100_000) as u32;
                let r = dlt_record(&f);
                v.extend(&r[..r.len() - cut.min(r.len() - 20)])
            }
        }
        v.extend(dlt_record(&dlt_fields(s)));
        return v;
    }
    if s.one_in(100) {
        // around the longest record
        v.extend(vec![b'.'; s.below(3)]);
        let k = 65531 - s.below(3);
        let mut f = Fields { htyp: 0x20, tail: vec![b'.'; k], ..Default::default() };
        let inner = dlt_record(&dlt_fields(s));
        let at = k - s.below(inner.len() + 6).min(k);
        let m = inner.len().min(k - at);
        f.tail[at..at + m].copy_from_slice(&inner[..m]);
        v.extend(dlt_record(&f));
        v.extend(&inner[m..]);
    }
    let n = s.below(9);
    let gap = if broken && s.one_in(250) { s.below(n + 1) } else { 99 };
    for i in 0..=n {
        if i == gap {
            v.extend(long_gap(s));
        }
        if i == n {
            break;
        }
        let mut f = dlt_fields(s);
        match if broken { s.below(12) } else { 0 } {
            0..=5 => v.extend(dlt_record(&f)),
            6 => {
                // records within a record
                let inner = dlt_record(&dlt_fields(s));
                let cut = if s.one_in(2) { inner.len() } else { s.below(inner.len() + 1) };
                f.tail.extend(&inner[..cut]);
                v.extend(dlt_record(&f));
            }
            7 => {
                let mut r = dlt_record(&f);
                let k = s.pick(&[0u16, 1, 3, 4, 5, 19, 20, 255, 600, 65535]);
                r[18..20].copy_from_slice(&k.to_be_bytes());
                v.extend(r);
            }
            8 => {
                let r = dlt_record(&f);
                v.extend(&r[..s.below(r.len() + 1)]);
            }
            9 => v.extend(b"DLT\x01"),
            10 => v.extend(&b"DLT\x01DLTDL"[..s.range(1, 9)]),
            _ => {
                let k = s.below(30);
                v.extend(s.bytes(k))
            }
        }
    }
    if broken && s.one_in(3) && !v.is_empty() {
        let k = v.len() - s.below(v.len().min(40));
        v.truncate(k);
    }
    v
}
pub fn hex(b: &[u8]) -> String {
    if b.len() > 400 {
        return format!("{}...({} bytes)", hex(&b[..400]), b.len());
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
