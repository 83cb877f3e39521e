//! C07 .. C15: naive readings of the specifications, compared with the iterators.
use crate::{ensure, ways};
use crate::recs::*;
use crate::src::{Src, R};
use matchit::readit::ReadIterator;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::searchable::{search_last_marker, search_marker, SearchableMarkerTrait};
use matchit::{partition_from, ContainedBySearch, NoOffsetIterator, TIterator};
use rapiddlt::dlt_v1::{dltit, dltit_offset, DltStorageEntry};
use rapiddlt::{DltGrepIterator};

pub type Pos = (usize, usize); // position, length

fn spec_at<'b, T: Rec<'b>>(b: &[u8], i: usize) -> Option<usize> {
    if i < b.len() { T::spec(&b[i..]) } else { None }
}
pub fn scan<'b, T: Rec<'b>>(b: &[u8], mut i: usize) -> Vec<Pos> {
    let mut r = vec![];
    while i < b.len() {
        match spec_at::<T>(b, i) {
            Some(n) => {
                r.push((i, n));
                i += n
            }
            None => i += 1,
        }
    }
    r
}
/// the items of an iterator, at most one more than expected, then polled twice behind the end
fn items<'b, T: Rec<'b>>(b: &[u8], it: impl Iterator<Item = (usize, T)>, n: usize) -> Vec<(usize, Pos)> {
    let mut it = it;
    let mut r = vec![];
    let mut after = 0;
    while r.len() <= n && after < 2 {
        match it.next() {
            Some((o, t)) => {
                if t.len() != t.place(b).1 {
                    r.push((o, (usize::MAX, t.len())));
                } else {
                    r.push((o, t.place(b)))
                }
            }
            None => after += 1,
        }
    }
    r
}
fn cmp(what: &str, got: &[(usize, Pos)], want: &[Pos]) -> Result<(), String> {
    let w: Vec<(usize, Pos)> = want.iter().map(|p| (p.0, *p)).collect();
    ensure!(got == w, "{}: got {:?} (offset, (position, length)), must be {:?}", what, got, w);
    Ok(())
}
/// (offset, (position, length)) of an item
fn at<'b, 'c, T: Rec<'b>>(b: &'c [u8]) -> impl Fn((usize, T)) -> (usize, Pos) + 'c {
    move |x| (x.0, x.1.place(b))
}
fn offs(want: &[Pos]) -> Vec<(usize, Pos)> {
    want.iter().map(|p| (p.0, *p)).collect()
}
fn pick_offset(s: &mut Src, b: &[u8]) -> usize {
    match s.below(4) {
        0 | 1 => 0,
        2 => s.below(b.len() + 1),
        _ => b.len() + s.pick(&[0usize, 1, 5, 1000]),
    }
}
pub fn leak(v: Vec<u8>) -> Leak {
    let p = Box::into_raw(v.into_boxed_slice());
    Leak(p)
}
/// bytes with a lifetime of the caller's choice, given back at the end of the case
pub struct Leak(*mut [u8]);
impl Leak {
    pub fn get<'b>(&self) -> &'b [u8] {
        unsafe { &*self.0 }
    }
}
impl Drop for Leak {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.0)) }
    }
}

pub fn c07<'b, T: Rec<'b>>(s: &mut Src) -> R {
    // back to back, now and then broken
    let v = if T::NAME == "dlt" && s.one_in(2) { dlt_bytes(s, false) } else { T::gen(s) };
    let l = leak(v);
    let b: &'b [u8] = l.get();
    let o = pick_offset(s, b);
    s.note(|| format!("{} bytes={} offset={}", T::NAME, hex(b), o));
    let mut want = vec![];
    let mut i = o;
    while let Some(n) = spec_at::<T>(b, i) {
        want.push((i, n));
        i += n;
    }
    let it = ReadIterator::<T>::new(b, o);
    cmp("ReadIterator", &items(b, it, want.len()), &want)?;
    let it = <ReadIterator<T> as TIterator>::new(b, o);
    cmp("ReadIterator (TIterator)", &items(b, it, want.len()), &want)?;
    ways!(s, "ReadIterator", ReadIterator::<T>::new(b, o), offs(&want), at(b));
    Ok(!want.is_empty())
}

pub fn c08<'b, T: Rec<'b>>(s: &mut Src) -> R {
    let l = leak(T::gen(s));
    let b: &'b [u8] = l.get();
    let o = pick_offset(s, b);
    s.note(|| format!("{} bytes={} offset={}", T::NAME, hex(b), o));
    let want = scan::<T>(b, o);
    let it = ReadFallbackIterator::<T>::new(b, o);
    cmp("ReadFallbackIterator", &items(b, it, want.len()), &want)?;
    let it = <ReadFallbackIterator<T> as TIterator>::new(b, o);
    cmp("ReadFallbackIterator (TIterator)", &items(b, it, want.len()), &want)?;
    let it = NoOffsetIterator::new(ReadFallbackIterator::<T>::new(b, o));
    let got: Vec<Pos> = it.take(want.len() + 1).map(|t| t.place(b)).collect();
    ensure!(got == want, "NoOffsetIterator: got {:?}, must be {:?}", got, want);
    ways!(s, "ReadFallbackIterator", ReadFallbackIterator::<T>::new(b, o), offs(&want), at(b));
    ways!(s, "NoOffsetIterator", NoOffsetIterator::new(ReadFallbackIterator::<T>::new(b, o)), want, |t: T| t.place(b));
    let m = (0..b.len()).find(|i| b[*i..].starts_with(T::MARK));
    ensure!(search_marker::<T>(b) == m, "search_marker: got {:?}, must be {:?}", search_marker::<T>(b), m);
    let m = (0..b.len()).rev().find(|i| b[*i..].starts_with(T::MARK));
    ensure!(search_last_marker::<T>(b) == m, "search_last_marker: got {:?}, must be {:?}", search_last_marker::<T>(b), m);
    Ok(!want.is_empty())
}
pub fn c08_dlt(s: &mut Src) -> R {
    let l = leak(dlt_bytes(s, true));
    let b: &[u8] = l.get();
    s.note(|| format!("dlt bytes={}", hex(b)));
    let want = scan::<DltStorageEntry>(b, 0);
    cmp("dltit_offset", &items(b, dltit_offset(b), want.len()), &want)?;
    let got: Vec<Pos> = dltit(b).take(want.len() + 1).map(|t| t.place(b)).collect();
    ensure!(got == want, "dltit: got {:?}, must be {:?}", got, want);
    ways!(s, "dltit", dltit(b), want, |t: DltStorageEntry| t.place(b));
    ways!(s, "dltit_offset", dltit_offset(b), offs(&want), at(b));
    Ok(!want.is_empty())
}

pub fn c09<'b, T: Rec<'b>>(s: &mut Src) -> R {
    let l = leak(T::gen(s));
    let b: &'b [u8] = l.get();
    let o = pick_offset(s, b);
    s.note(|| format!("{} bytes={} offset={}", T::NAME, hex(b), o));
    let want = scan::<T>(b, o);
    let it = SearchIterator::<T>::new(b, o);
    cmp("SearchIterator", &items(b, it, want.len()), &want)?;
    ways!(s, "SearchIterator", SearchIterator::<T>::new(b, o), offs(&want), at(b));
    // search: the record at the first marker, if there is one
    let p = pick_offset(s, b);
    let q = pick_offset(s, b);
    let it = SearchIterator::<T>::new(b, q);
    let m = (p..b.len()).find(|i| b[*i..].starts_with(T::MARK));
    let w = m.and_then(|i| spec_at::<T>(b, i).map(|n| (i, (i, n))));
    let g = it.search(b, p).map(|(o, t)| (o, t.place(b)));
    ensure!(g == w, "SearchIterator::search(bytes, {}): got {:?}, must be {:?}", p, g, w);
    Ok(!want.is_empty())
}

/// records that start with a marker in front of o, last one first
fn rscan<'b, T: Rec<'b>>(b: &[u8], o: usize) -> Vec<Pos> {
    let hi = o.min(b.len());
    (0..hi).rev().filter(|i| i + T::MARK.len() <= hi).filter_map(|i| spec_at::<T>(b, i).map(|n| (i, n))).collect()
}
fn rsearch<'b, T: Rec<'b>>(b: &[u8], o: usize) -> Option<Pos> {
    if o > b.len() {
        return None;
    }
    let i = (0..o).rev().filter(|i| i + T::MARK.len() <= o).find(|i| b[*i..].starts_with(T::MARK))?;
    spec_at::<T>(b, i).map(|n| (i, n))
}
pub fn c10<'b, T: Rec<'b>>(s: &mut Src) -> R {
    let l = leak(T::gen(s));
    let b: &'b [u8] = l.get();
    let o = match s.below(4) {
        0 | 1 => b.len(),
        2 => s.below(b.len() + 1),
        _ => b.len() + s.pick(&[1usize, 2, 1000]),
    };
    s.note(|| format!("{} bytes={} offset={}", T::NAME, hex(b), o));
    let want = rscan::<T>(b, o);
    let it = RevSearchIterator::<T>::new(b, o);
    cmp("RevSearchIterator", &items(b, it, want.len()), &want)?;
    ways!(s, "RevSearchIterator", RevSearchIterator::<T>::new(b, o), offs(&want), at(b));
    let p = pick_offset(s, b);
    let it = RevSearchIterator::<T>::new(b, o);
    let w = rsearch::<T>(b, p).map(|x| (x.0, x));
    let g = it.search(b, p).map(|(o, t)| (o, t.place(b)));
    ensure!(g == w, "RevSearchIterator::search(bytes, {}): got {:?}, must be {:?}", p, g, w);
    Ok(!want.is_empty())
}

pub const PATTERNS: &[&str] = &[
    "W", "H", "(?-u)D", "(?-u)L(.)", "x", "()", "", "x*", "W*", "(a)|b", "a(x)?", "(?-u)DL(.)", "(?s-u).", "(?s-u)(.)(.)", "$", "^", "H.* World", "(?-u)\\.+", "(?-u)(\\.)+x?",
    "Hello( World)?", "APP1", "(?s-u)x.D", "\\b", "(?m-u)$", "(?s-u).{3}", "DLT", "(E00)1", "(?s-u)[^D]*D",
];
/// one of the above or any other
fn pattern(s: &mut Src) -> String {
    if !s.one_in(3) {
        return s.pick(PATTERNS).to_string();
    }
    let mut p = s.pick(&["", "", "", "(?-u)", "(?i)", "(?s-u)", "(?x)", "(?m)", " ", "(?U)"]).to_string();
    let mut open = 0;
    for _ in 0..s.range(1, 6) {
        match s.below(12) {
            0 => {
                p += s.pick(&["(", "(", "(?:", "(?P<n>"]);
                open += 1
            }
            1 if open > 0 => {
                p += ")";
                open -= 1
            }
            2 => p += "|",
            3 => p += s.pick(&[" ", "\t", "\n", "#", " \n"]),
            4 => p += s.pick(&["\\b", "^", "$", "\\z", "\\A", "\\B"]),
            5 => p += s.pick(&[".", "[^D]", "[ab]", "\\w", "\\s", "[a-zA-Z]", "\\x00", "\\.", "[DL]"]),
            _ => p += s.pick(&["a", "b", "x", "W", "H", "D", "L", "w", "X", "DL", "E", "A", "1", "e", "l"]),
        }
        p += s.pick(&["", "", "", "", "", "*", "+", "?", "+?", "{2}", "{1,3}"]);
    }
    p += &")".repeat(open);
    p += s.pick(&["", "", "", "", " ", "\n"]);
    if regex::bytes::Regex::new(&p).is_err() { "a(x)? ".into() } else { p }
}
fn around<'b, T: Rec<'b>>(b: &[u8], s: usize, e: usize) -> Option<Pos> {
    let (i, n) = rsearch::<T>(b, s)?;
    (s < i + n && e <= i + n).then_some((i, n))
}
/// (record, group 1) of the matches within records, at most one per record
pub fn gscan<'b, T: Rec<'b>>(re: &regex::bytes::Regex, b: &[u8], mut o: usize, group: bool) -> Vec<(Pos, Option<(usize, usize)>)> {
    let mut r = vec![];
    while o < b.len() {
        let Some(m) = re.find_at(b, o) else { break };
        let mut l = re.capture_locations();
        re.captures_read_at(&mut l, b, o);
        let next = if m.end() > m.start() { m.end() } else { m.end() + 1 };
        match around::<T>(b, m.start(), m.end()) {
            Some(p) if !group || l.get(1).is_some() => {
                r.push((p, l.get(1)));
                o = p.0 + p.1;
            }
            _ => o = next,
        }
    }
    r
}
pub fn c11<'b, T: Rec<'b>>(s: &mut Src) -> R {
    let p = &pattern(s);
    let l = leak(T::gen(s));
    let b: &'b [u8] = l.get();
    let o = pick_offset(s, b);
    s.note(|| format!("{} pattern={:?} bytes={} offset={}", T::NAME, p, hex(b), o));
    let re = regex::bytes::Regex::new(p).unwrap();
    if b.len() > 5000 && (re.is_match(b"") || re.is_match(b"...")) {
        return Ok(false); // a match at every byte takes too long
    }
    let want: Vec<Pos> = gscan::<T>(&re, b, o, false).into_iter().map(|x| x.0).collect();
    let it = GrepIterator::<T>::new(p, b, o);
    cmp("GrepIterator", &items(b, it, want.len()), &want)?;
    ways!(s, "GrepIterator", GrepIterator::<T>::new(p, b, o), offs(&want), at(b));
    let q = pick_offset(s, b);
    let it = GrepIterator::<T>::new(p, b, o);
    let w = gscan::<T>(&re, b, q, false).first().map(|x| (x.0 .0, x.0));
    let g = it.search(b, q).map(|(o, t)| (o, t.place(b)));
    ensure!(g == w, "GrepIterator::search(bytes, {}): got {:?}, must be {:?}", q, g, w);
    Ok(!want.is_empty())
}
pub fn c11_dlt(s: &mut Src) -> R {
    let p = &pattern(s);
    let l = leak(dlt_bytes(s, true));
    let b: &[u8] = l.get();
    s.note(|| format!("dlt pattern={:?} bytes={}", p, hex(b)));
    let re = regex::bytes::Regex::new(p).unwrap();
    if b.len() > 5000 && (re.is_match(b"") || re.is_match(b"...")) {
        return Ok(false); // a match at every byte takes too long
    }
    let want: Vec<Pos> = gscan::<DltStorageEntry>(&re, b, 0, false).into_iter().map(|x| x.0).collect();
    cmp("DltGrepIterator", &items(b, DltGrepIterator::new(p, b, 0), want.len()), &want)?;
    ways!(s, "DltGrepIterator", DltGrepIterator::new(p, b, 0), offs(&want), at(b));
    Ok(!want.is_empty())
}
pub fn c12<'b, T: Rec<'b>>(s: &mut Src) -> R {
    let p = &pattern(s);
    let l = leak(T::gen(s));
    let b: &'b [u8] = l.get();
    let o = pick_offset(s, b);
    s.note(|| format!("{} pattern={:?} bytes={} offset={}", T::NAME, p, hex(b), o));
    let re = regex::bytes::Regex::new(p).unwrap();
    if b.len() > 5000 && (re.is_match(b"") || re.is_match(b"...")) {
        return Ok(false); // a match at every byte takes too long
    }
    let want: Vec<(usize, (usize, usize))> = gscan::<T>(&re, b, o, true).into_iter().map(|x| (x.0 .0, x.1.unwrap())).collect();
    let it = RegExMatcherIterator::<T>::new(p, b, o);
    let got: Vec<_> = it.take(want.len() + 1).collect();
    ensure!(got == want, "RegExMatcherIterator: got {:?} (record, group), must be {:?}", got, want);
    ways!(s, "RegExMatcherIterator", RegExMatcherIterator::<T>::new(p, b, o), want, |x| x);
    let q = pick_offset(s, b);
    let it = RegExMatcherIterator::<T>::new(p, b, o);
    let w = gscan::<T>(&re, b, q, true).first().map(|x| (x.0 .0, x.1.unwrap()));
    let g = it.capture(b, q);
    ensure!(g == w, "RegExMatcherIterator::capture(bytes, {}): got {:?}, must be {:?}", q, g, w);
    Ok(!want.is_empty())
}

pub fn c13<'b, T: Rec<'b>>(s: &mut Src) -> R {
    let l = leak(T::gen(s));
    let b: &'b [u8] = l.get();
    // the outermost records are what a scan returns
    let outer = scan::<T>(b, 0);
    let f = ContainedBySearch::<T>::new();
    let mut hit = false;
    let mut check = |p: usize, q: usize| -> Result<(), String> {
        let want = if p < q && q <= b.len() {
            outer.iter().copied().find(|(i, n)| *i < p && i + n >= q)
        } else {
            None
        };
        let got = f.contained_by(b, (p, q)).map(|(o, t)| (o, t.place(b)));
        let w = want.map(|x| (x.0, x));
        hit |= want.is_some();
        ensure!(got == w, "contained_by(bytes, ({}, {})): got {:?}, must be {:?}", p, q, got, w);
        Ok(())
    };
    let (mut ps, mut desc) = (vec![], String::new());
    for _ in 0..6 {
        let p = if !outer.is_empty() && s.one_in(2) {
            let (i, n) = outer[s.below(outer.len())];
            s.pick(&[i, i + 1, i + n - 1, i + n, i + 2])
        } else {
            s.below(b.len() + 2)
        };
        let q = match s.below(3) {
            0 => p + 1,
            1 => p + s.below(14),
            _ => (s.below(b.len() + 3)).max(p.saturating_sub(1)),
        };
        ps.push((p, q));
        desc = format!("{:?}", ps);
    }
    s.note(|| format!("{} bytes={} slices={}", T::NAME, hex(b), desc));
    for (p, q) in ps {
        check(p, q)?;
    }
    Ok(hit)
}

/// C14 lossless tiling, C15 no record cut and the same records
pub fn parts<'b, T: Rec<'b>>(s: &mut Src, c15: bool, via: impl Fn(&'b [u8], usize) -> Vec<&'b [u8]>) -> R {
    let l = leak(T::gen(s));
    let b: &'b [u8] = l.get();
    let num = match s.below(4) {
        0 | 1 => s.range(1, 8),
        2 => s.range(1, b.len().min(200) + 2),
        _ => b.len().max(1) * s.range(1, 3),
    };
    if b.len() > 60000 && num > 1000 {
        return Ok(false);
    }
    s.note(|| format!("{} bytes={} num={}", T::NAME, hex(b), num));
    let p = via(b, num);
    let lens: Vec<usize> = p.iter().map(|x| x.len()).collect();
    if !c15 {
        let all: Vec<u8> = p.concat();
        ensure!(all == b, "the parts (lengths {:?}) joined are {}, must be the {} bytes", lens, hex(&all), b.len());
        ensure!(p.iter().all(|x| !x.is_empty()), "a part is empty: lengths {:?}", lens);
        return Ok(p.len() > 1);
    }
    let whole = scan::<T>(b, 0);
    let mut pos = 0;
    for x in &p {
        if let Some((i, n)) = whole.iter().find(|(i, n)| *i < pos && pos < i + n) {
            return Err(format!("the record at {} of {} bytes is cut at {} (parts {:?})", i, n, pos, lens));
        }
        pos += x.len();
    }
    let mut got = vec![];
    for x in &p {
        let base = (x.as_ptr() as usize).wrapping_sub(b.as_ptr() as usize);
        for (o, t) in ReadFallbackIterator::<T>::new(x, 0).take(b.len() + 1) {
            got.push((o.wrapping_add(base), t.len()))
        }
    }
    ensure!(got == whole, "the parts {:?} hold the records {:?}, must be {:?}", lens, got, whole);
    Ok(p.len() > 1 && !whole.is_empty())
}
pub fn part<'b, T: SearchableMarkerTrait<'b>>(b: &'b [u8], n: usize) -> Vec<&'b [u8]> {
    partition_from::<T>(b, n)
}
