//! C23 to C27: the programs ripdlt and dd_dlt, run as they are (built from /repo, found in
//! $CMDS_BIN), against functions over the records of the greedy scan.
use crate::ensure;
use crate::recs::*;
use crate::search::{gscan, scan};
use crate::src::{Src, R};
use matchit::partition_from;
use rapiddlt::dlt_v1::DltStorageEntry;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

struct Run {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}
/// runs a program with limits: at most `max` bytes of output are read
fn run(bin: &str, args: &[&str], input: Option<(&[u8], usize)>, max: usize) -> Result<Run, String> {
    let dir = std::env::var("CMDS_BIN").map_err(|_| "CMDS_BIN is not set".to_string())?;
    let mut c = Command::new(format!("{}/{}", dir, bin))
        .args(args)
        .env("RUST_BACKTRACE", "0")
        .stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| {
            println!("cannot run {}: {}", bin, e);
            std::process::exit(8)
        });
    crate::CHILD.store(c.id(), std::sync::atomic::Ordering::Relaxed);
    let mut stdin = c.stdin.take();
    let (mut so, mut se) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let data = input.map(|(d, n)| (d.to_vec(), n));
    let w = std::thread::spawn(move || {
        if let (Some(p), Some((d, n))) = (stdin.as_mut(), data) {
            for x in d.chunks(n.max(1)) {
                if n == 1 && d.len() < 700 {
                    // give the reader time to take it by itself
                    std::thread::sleep(std::time::Duration::from_micros(20));
                }
                if p.write_all(x).and_then(|_| p.flush()).is_err() {
                    break;
                }
            }
        }
        drop(stdin);
    });
    let e = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.by_ref().take(20000).read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let mut out = vec![];
    let _ = so.by_ref().take(max as u64).read_to_end(&mut out);
    if out.len() >= max {
        let _ = c.kill();
    }
    let st = c.wait().map_err(|e| e.to_string())?;
    crate::CHILD.store(0, std::sync::atomic::Ordering::Relaxed);
    let _ = w.join();
    Ok(Run { code: st.code(), out, err: e.join().unwrap_or_default() })
}

// ---------------------------------------------------------------- ripdlt
struct Rec1 {
    r: spec::Record,
    tail: Vec<u8>,
}
impl Rec1 {
    fn ts(&self) -> Option<u32> {
        spec::timestamp(self.r.msg.htyp, &self.tail)
    }
    fn payload(&self) -> &[u8] {
        spec::payload(self.r.msg.htyp, &self.tail).map(|o| &self.tail[o..]).unwrap_or(&[])
    }
    fn hello(&self) -> bool {
        self.payload().windows(11).any(|w| w == b"Hello World")
    }
}
fn records(b: &[u8]) -> Vec<Rec1> {
    scan::<DltStorageEntry>(b, 0).iter().map(|&(i, n)| Rec1 { r: spec::record(&b[i..]).unwrap(), tail: b[i + 20..i + n].to_vec() }).collect()
}
/// maximal runs in which neighbours are in the (reflexive) relation: (first, last)
fn runs<'a, T>(v: &[&'a T], rel: impl Fn(&T, &T) -> bool) -> Vec<(&'a T, &'a T)> {
    let mut r: Vec<(&T, &T)> = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && rel(v[j], v[j + 1]) {
            j += 1;
        }
        r.push((v[i], v[j]));
        i = j + 1;
    }
    r
}
fn hist<K: Ord>(i: impl Iterator<Item = K>) -> BTreeMap<K, usize> {
    let mut m = BTreeMap::new();
    for k in i {
        *m.entry(k).or_insert(0) += 1;
    }
    m
}
fn by_ecu(v: &[Rec1]) -> BTreeMap<[u8; 4], Vec<&Rec1>> {
    let mut m: BTreeMap<[u8; 4], Vec<&Rec1>> = BTreeMap::new();
    for x in v {
        m.entry(x.r.ecu).or_default().push(x);
    }
    m
}
/// periods of one ECU after merging: every arriving period is united with the first stored one it has a second in common with
fn periods(v: &[&Rec1]) -> Vec<(u32, u32)> {
    let mut m: BTreeMap<(u32, u32), (u32, u32)> = BTreeMap::new();
    for (a, b) in runs(v, |a, b| b.r.secs >= a.r.secs) {
        let (lo, hi) = (a.r.secs, b.r.secs);
        let hit = m.values().copied().find(|p| p.0.max(lo) <= p.1.min(hi));
        let n = match hit {
            Some(p) => {
                m.remove(&p);
                (p.0.min(lo), p.1.max(hi))
            }
            None => (lo, hi),
        };
        m.insert(n, n);
    }
    m.into_values().collect()
}
const TYPES: [(&str, &[&str]); 4] = [
    ("DltTypeLog", &["DltLogFatal", "DltLogDltError", "DltLogWarn", "DltLogInfo", "DltLogDebug", "DltLogVerbose"]),
    ("DltTypeAppTrace", &["DltTraceVariable", "DltTraceFunctionIn", "DltTraceFunctionOut", "DltTraceState", "DltTraceVfb"]),
    ("DltTypeNwTrace", &["DltNwTraceIpc", "DltNwTraceCan", "DltNwTraceFlexray", "DltNwTraceMost", "DltNwTraceEthernet", "DltNwTraceSomeip"]),
    ("DltTypeControl", &["DltControlRequest", "DltControlResponse"]),
];
fn type_name(t: Option<(u8, u8)>) -> String {
    match t {
        None => "None".into(),
        Some((a, i)) => format!("Some({}({}))", TYPES[a as usize].0, TYPES[a as usize].1[i as usize - 1]),
    }
}
fn count_nonoverlapping(b: &[u8], p: &[u8]) -> usize {
    let (mut i, mut n) = (0, 0);
    while i + p.len() <= b.len() {
        if &b[i..i + p.len()] == p {
            n += 1;
            i += p.len();
        } else {
            i += 1;
        }
    }
    n
}
/// commands that count records
const COUNTS: &[&str] = &[
    "histogram_message_type", "histogram_payload_size", "histogram_message_size", "count", "par_count", "histogram_hello_world", "count_hello_world",
    "count_hello_world_raw", "count_hello_world_grepit", "par_count_hello_world", "par_count_hello_world_raw", "par_count_hello_world_grepit",
];
/// commands about times
const TIMES: &[&str] = &["histogram_lifecycles", "split_lifecycles", "split_timestamp", "histogram_timestamp", "iter", "itertools"];
/// the lines a command has to print behind the line of its arguments, in a form that is compared as a whole
fn expected(cmd: &str, b: &[u8], v: &[Rec1]) -> Option<Vec<String>> {
    let all: Vec<&Rec1> = v.iter().collect();
    let timed: Vec<&Rec1> = v.iter().filter(|x| x.ts().is_some()).collect();
    let ts = |x: &Rec1| x.ts().unwrap();
    let secs = |m: BTreeMap<u32, usize>| m.into_iter().map(|(k, n)| format!("{}-{} secs: {}", k, k as u64 + 1, n)).collect::<Vec<_>>();
    let head = |h: &str, mut l: Vec<String>| {
        l.insert(0, h.to_string());
        Some(l)
    };
    const LC: &str = "Distribution of lifecycle durations:";
    const TS: &str = "Durations of periods where DLT storage header timestamps are continuous:";
    let per_ecu = |f: &dyn Fn(&[&Rec1]) -> String, only: &dyn Fn(&Rec1) -> bool| -> Vec<String> {
        by_ecu(v)
            .iter()
            .filter_map(|(k, x)| {
                let x: Vec<&Rec1> = x.iter().copied().filter(|r| only(r)).collect();
                (!x.is_empty()).then(|| format!("{} #lifecycles: {}", String::from_utf8_lossy(k), f(&x)))
            })
            .collect()
    };
    let sizes = |m: BTreeMap<usize, usize>, what: &str, tail: &str| {
        let mut l: Vec<String> = m.iter().map(|(k, n)| format!("{}b: {}, overall: {} kB", k, n, k * n / 1024)).collect();
        l.insert(0, what.to_string());
        l.push(format!("{} in total: {} kB", tail, m.iter().map(|(k, n)| k * n).sum::<usize>() / 1024));
        Some(l)
    };
    match cmd {
        "histogram_lifecycles" => {
            let r = runs(&timed, |a, b| spec::ecu_id(a.r.msg.htyp, &a.tail) == spec::ecu_id(b.r.msg.htyp, &b.tail) && ts(b) >= ts(a));
            head(LC, secs(hist(r.iter().map(|(a, b)| (ts(b) - ts(a)) / 10000))))
        }
        "split_lifecycles" => head(
            LC,
            per_ecu(&|x| format!("({:?}, {})", hist(runs(x, |a, b| ts(b) >= ts(a)).iter().map(|(a, b)| (ts(b) - ts(a)) / 10000)), x.len()), &|r| r.ts().is_some()),
        ),
        "split_timestamp" => head(TS, per_ecu(&|x| format!("({:?}, {})", hist(periods(x).iter().map(|p| p.1 - p.0)), x.len()), &|_| true)),
        "histogram_timestamp" => head(TS, secs(hist(runs(&all, |a, b| b.r.secs >= a.r.secs).iter().map(|(a, b)| b.r.secs - a.r.secs)))),
        "histogram_message_type" => {
            // printed in the order of the keys: not verbose first, no type first, then by type and info
            let m = hist(v.iter().filter_map(|x| spec::extended(x.r.msg.htyp, &x.tail)).map(|e| (e.msin % 2 == 1, spec::mstp(e.msin))));
            head("(verbose, message type): # dlt messages", m.iter().map(|(k, n)| format!("({}, {}): {}", k.0, type_name(k.1), n)).collect())
        }
        "histogram_payload_size" => sizes(hist(v.iter().map(|x| x.payload().len())), "Distribution of payload length:", "Payload"),
        // len() of a stored record counts the storage header
        "histogram_message_size" => sizes(hist(v.iter().map(|x| x.r.total)), "Distribution of DLT message length:", "DLT messages"),
        "count" | "par_count" => Some(vec![format!("{} messages", v.len())]),
        "count_hello_world" | "par_count_hello_world" => Some(vec![format!("{} hello world messages", v.iter().filter(|x| x.hello()).count())]),
        "count_hello_world_raw" => Some(vec![format!("{} raw hello world matches", count_nonoverlapping(b, b"Hello World"))]),
        "count_hello_world_grepit" | "histogram_hello_world" => {
            let re = regex::bytes::Regex::new("H.* World").unwrap();
            let g = gscan::<DltStorageEntry>(&re, b, 0, false);
            if cmd == "count_hello_world_grepit" {
                return Some(vec![format!("{} hello world messages", g.len())]);
            }
            let m = hist(g.iter().map(|x| x.0 .0 / 100000000));
            head("Distribution of 'Hello World' matches:", m.iter().map(|(k, n)| format!("Offset {}M-{}M: {}", k * 100, (k + 1) * 100, n)).collect())
        }
        "iter" => {
            let n = runs(&timed, |a, b| ts(b) >= ts(a)).iter().filter(|(a, b)| ts(b) - ts(a) >= 18000000).count();
            Some(vec![format!("{} lifecycles >= 1800s", n)])
        }
        "itertools" => {
            let n = timed.windows(2).filter(|w| ts(w[1]) >= ts(w[0]) && ts(w[1]) - ts(w[0]) >= 18000000).count();
            Some(vec![format!("{} lifecycles >= 1800s", n)])
        }
        _ => None,
    }
}
fn ask(cmd: &str, how: &str, b: &[u8]) -> Result<Vec<String>, String> {
    let dir = std::env::var("ENGINE_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let name = format!("{}/rip.{}.dlt", dir, std::process::id());
    std::fs::write(&name, b).map_err(|e| e.to_string())?;
    let r = run("ripdlt", &[how, cmd, &name], None, 1 << 22);
    let _ = std::fs::remove_file(&name);
    let r = r?;
    ensure!(r.code == Some(0), "ripdlt {} {} ended with {:?}: {}", how, cmd, r.code, r.err.trim());
    let t = String::from_utf8_lossy(&r.out).to_string();
    Ok(t.lines().skip(1).filter(|l| !l.starts_with("available parallelism")).map(|l| l.to_string()).collect())
}
fn how(s: &mut Src, b: &[u8]) -> &'static str {
    if b.is_empty() || s.one_in(2) { "read" } else { "mmap" }
}
/// records with times in small ranges: runs, lifecycles, overlapping periods
fn timed_bytes(s: &mut Src) -> Vec<u8> {
    let mut v = vec![];
    let n = s.below(14);
    let ecus = s.range(1, 3);
    let mut last = 0u32;
    for _ in 0..n {
        let mut f = dlt_fields(s);
        f.secs = (s.below(12) as u32).saturating_mul(s.pick(&[1u32, 1, 1, 7, 0x1800_0000]));
        if s.one_in(40) {
            f.secs = s.pick(&[u32::MAX, u32::MAX - 1, 0]);
        }
        f.ecu = [*b"E001", *b"E002", [0xff, 0x80, 0, 1]][s.below(ecus)];
        let large = s.one_in(5);
        if large {
            let k = s.pick(&[300usize, 700, 1000, 1023, 1024, 1025, 1500, 2000, 5000, 40000]) + s.below(40);
            f.tail.extend(vec![b'.'; k]);
        } else if s.one_in(2) {
            f.htyp = 0x14;
            f.tail = s.pick(&[*b"ECU1", *b"ECU2"]).to_vec();
            let t = match s.below(6) {
                0 => s.below(6) as u32 * 5000,
                1 => s.below(4) as u32 * 18_000_000,
                2 => 18_000_000 - 1 + s.below(3) as u32,
                3 => s.pick(&[0u32, 9999, 10000, u32::MAX]),
                // the limit of a long lifecycle, and its neighbours, behind the time before
                _ => last.saturating_add(s.pick(&[18_000_000u32, 18_000_000, 18_000_000 - 1, 18_000_000 + 1])),
            };
            last = t;
            f.tail.extend(t.to_be_bytes());
            if s.one_in(3) {
                f.tail.extend(b"Hello World")
            }
        }
        v.extend(dlt_record(&f));
        if s.one_in(8) {
            v.extend(b"..DLT\x01..");
        }
    }
    v
}
pub fn c23(s: &mut Src) -> R {
    // two runs of one ECU: (a..a+n), (b..b+m), the second starts below the end of the first
    let (a, n) = (s.below(12) as u32, s.below(8) as u32);
    let (mut b, m) = (s.below(12) as u32, s.below(8) as u32);
    if s.one_in(3) {
        // the periods have one second in common, or they are neighbours
        b = s.pick(&[a + n, a.saturating_sub(m), a + n + 1, a.saturating_sub(m + 1)]);
    }
    let big = if s.one_in(6) { u32::MAX - 40 } else { 0 };
    let mut secs = vec![];
    for (x, k) in [(a, n), (b, m)] {
        secs.push(x);
        for i in 1..k {
            if s.one_in(2) {
                secs.push(x + i)
            }
        }
        if k > 0 {
            secs.push(x + k)
        }
    }
    // seconds may be far apart
    let step = if big == 0 { s.pick(&[1u32, 1, 1, 0x1000_0000, 0x0a00_0000, 0x2400_0000, 0x3fff_ffff, 1000]) } else { 1 };
    let secs: Vec<u32> = secs.into_iter().map(|x| big + x.saturating_mul(step)).collect();
    let mut v = vec![];
    for x in &secs {
        let mut f = dlt_fields(s);
        f.secs = *x;
        f.ecu = *b"E001";
        f.tail.retain(|c| *c != 1);
        v.extend(dlt_record(&f));
        // records of another ECU in between do not matter
        if s.one_in(3) {
            f.ecu = *b"E002";
            f.secs = 5;
            v.extend(dlt_record(&f));
        }
    }
    let how = how(s, &v);
    let r = records(&v);
    s.note(|| format!("ripdlt {} split_timestamp, file of records (ecu, secs) {:?}, bytes {}", how, r.iter().map(|x| (String::from_utf8_lossy(&x.r.ecu).to_string(), x.r.secs)).collect::<Vec<_>>(), hex(&v)));
    let w = expected("split_timestamp", &v, &r).unwrap();
    let g = ask("split_timestamp", how, &v)?;
    ensure!(g == w, "split_timestamp prints {:?}, must be {:?}", g, w);
    Ok(runs(&r.iter().filter(|x| x.r.ecu == *b"E001").collect::<Vec<_>>(), |a, b| b.r.secs >= a.r.secs).len() > 1)
}
/// a file of more than 100 MB with a few records in it, and where they are
fn large(s: &mut Src) -> (Vec<u8>, Vec<usize>) {
    let mut v = vec![0u8; 100_002_000];
    let mut p = vec![];
    for i in 0..2 {
        for _ in 0..s.below(3) {
            let mut f = dlt_fields(s);
            f.htyp = 0;
            f.tail = b"say Hello World now\n".to_vec();
            let r = dlt_record(&f);
            let at = i * 100_000_000 + s.below(10) * 60 - if i > 0 { 300 } else { 0 };
            if v[at..at + r.len()].iter().all(|x| *x == 0) {
                v[at..at + r.len()].copy_from_slice(&r);
                p.push(at);
            }
        }
    }
    p.sort();
    (v, p)
}
pub fn c24(s: &mut Src) -> R {
    if s.one_in(1500) {
        let (v, p) = large(s);
        s.note(|| format!("ripdlt mmap histogram_hello_world, file of {} bytes, zero but for records at {:?}", v.len(), p));
        let g = ask("histogram_hello_world", "mmap", &v)?;
        let mut w: Vec<String> = hist(p.iter().map(|x| x / 100_000_000)).iter().map(|(k, n)| format!("Offset {}M-{}M: {}", k * 100, (k + 1) * 100, n)).collect();
        w.insert(0, "Distribution of 'Hello World' matches:".into());
        ensure!(g == w, "histogram_hello_world prints {:?}, must be {:?}", g, w);
        return Ok(true);
    }
    command(s, COUNTS)
}
pub fn c26(s: &mut Src) -> R {
    command(s, TIMES)
}
fn command(s: &mut Src, which: &[&'static str]) -> R {
    let cmd = which[s.below(which.len())];
    let v = if s.one_in(4) { dlt_bytes(s, true) } else { timed_bytes(s) };
    let how = how(s, &v);
    s.note(|| format!("ripdlt {} {}, file of {} bytes {}", how, cmd, v.len(), hex(&v)));
    let r = records(&v);
    let g = ask(cmd, how, &v)?;
    if let Some(w) = expected(cmd, &v, &r) {
        // (an ECU id may contain line ends)
        let (g, w) = (g.join("\n"), w.join("\n").lines().collect::<Vec<_>>().join("\n"));
        ensure!(g == w, "{} prints {:?}, must be {:?}", cmd, g, w);
    }
    Ok(!r.is_empty())
}

// ---------------------------------------------------------------- parallel forms
const PARALLEL: &[&str] = &["par_count", "par_count_hello_world", "par_count_hello_world_raw", "par_count_hello_world_grepit", "par_iter", "par_split_timestamp", "par_histogram_timestamp"];
/// what the command has to print if the file is divided into these parts: the sums of what the sequential command gives of each part
fn of_parts(cmd: &str, parts: &[&[u8]]) -> Vec<String> {
    let rs: Vec<Vec<Rec1>> = parts.iter().map(|p| records(p)).collect();
    let ts = |x: &Rec1| x.ts().unwrap();
    let total = |f: &dyn Fn(&[u8], &[Rec1]) -> usize| parts.iter().zip(&rs).map(|(p, r)| f(p, r)).sum::<usize>();
    const TS: &str = "Durations of periods where DLT storage header timestamps are continuous:";
    match cmd {
        "par_count" => vec![format!("{} messages", total(&|_, r| r.len()))],
        "par_count_hello_world" => vec![format!("{} hello world messages", total(&|_, r| r.iter().filter(|x| x.hello()).count()))],
        "par_count_hello_world_raw" => vec![format!("{} hello world messages", total(&|p, _| count_nonoverlapping(p, b"Hello World")))],
        "par_count_hello_world_grepit" => {
            let re = regex::bytes::Regex::new("H.* World").unwrap();
            vec![format!("{} hello world messages", total(&|p, _| gscan::<DltStorageEntry>(&re, p, 0, false).len()))]
        }
        "par_iter" => {
            // printed by the parts themselves, in any order
            let mut l: Vec<String> = rs
                .iter()
                .map(|r| {
                    let timed: Vec<&Rec1> = r.iter().filter(|x| x.ts().is_some()).collect();
                    format!("{} lifecycles >= 1800s", runs(&timed, |a, b| ts(b) >= ts(a)).iter().filter(|(a, b)| ts(b) - ts(a) >= 18000000).count())
                })
                .collect();
            l.sort();
            l
        }
        "par_histogram_timestamp" => {
            let m = hist(rs.iter().flat_map(|r| runs(&r.iter().collect::<Vec<_>>(), |a, b| b.r.secs >= a.r.secs).iter().map(|(a, b)| b.r.secs - a.r.secs).collect::<Vec<_>>()));
            let mut l = vec![TS.to_string()];
            l.extend(m.into_iter().map(|(k, n)| format!("{}-{} secs: {}", k, k as u64 + 1, n)));
            l
        }
        _ => {
            let mut m: BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> = BTreeMap::new();
            for r in &rs {
                for (k, x) in by_ecu(r) {
                    let e = m.entry(k).or_default();
                    for p in periods(&x) {
                        *e.0.entry(p.1 - p.0).or_insert(0) += 1;
                    }
                    e.1 += x.len();
                }
            }
            let mut l = vec![TS.to_string()];
            l.extend(m.iter().map(|(k, v)| format!("{} #lifecycles: {:?}", String::from_utf8_lossy(k), v)));
            l
        }
    }
}
pub fn c27(s: &mut Src) -> R {
    let cmd = s.pick(PARALLEL);
    let mut v = if s.one_in(4) { dlt_bytes(s, true) } else { timed_bytes(s) };
    while s.one_in(2) && v.len() < 4000 {
        v.extend(timed_bytes(s));
    }
    let how = how(s, &v);
    s.note(|| format!("ripdlt {} {}, file of {} bytes {}", how, cmd, v.len(), hex(&v)));
    let r = records(&v);
    let mut g = ask(cmd, how, &v)?;
    if cmd == "par_iter" {
        g.sort();
    }
    // (an ECU id may contain line ends)
    let g = g.join("\n");
    let form = |w: Vec<String>| w.join("\n").lines().collect::<Vec<_>>().join("\n");
    // the file may be divided into any number of parts that cut no record; first the number of processors
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
    let mut first = None;
    let mut seen: Vec<Vec<usize>> = vec![];
    for k in std::iter::once(n).chain(1..=64) {
        let parts = partition_from::<DltStorageEntry>(&v, k);
        let lens: Vec<usize> = parts.iter().map(|x| x.len()).collect();
        ensure!(parts.concat() == v, "the parts for {} do not join to the file: lengths {:?}", k, lens);
        if seen.contains(&lens) {
            continue;
        }
        let w = form(of_parts(cmd, &parts));
        if g == w {
            let m: usize = parts.iter().map(|p| records(p).len()).sum();
            ensure!(m == r.len(), "{} works on parts of the lengths {:?} that have {} records together, the file has {}", cmd, lens, m, r.len());
            return Ok(parts.len() > 1 && !r.is_empty());
        }
        first.get_or_insert((w, lens.clone()));
        seen.push(lens);
    }
    let (w, lens) = first.unwrap_or_default();
    Err(format!("{} prints {:?}, must be {:?} (parts of the lengths {:?}; no other division fits either)", cmd, g, w, lens))
}

// ---------------------------------------------------------------- dd_dlt
fn stream(ecu: &[u8; 4], app: &[u8; 4], ps: usize, input: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for (i, x) in input.chunks_exact(ps).enumerate() {
        o.extend(b"DLT\x01");
        o.extend(((i / 100) as u32).to_le_bytes());
        o.extend(((i % 100) as i32 * 10000).to_le_bytes());
        o.extend(ecu);
        o.push(0x31); // version 1, timestamp, extended header
        o.push(i as u8);
        o.extend(((18 + ps) as u16).to_be_bytes());
        o.extend((i as u32).wrapping_mul(100).to_be_bytes());
        o.push(0x41); // verbose, log, info
        o.push(0);
        o.extend(app);
        o.extend(app);
        o.extend(x);
    }
    o
}
pub fn c25(s: &mut Src) -> R {
    let ids = [*b"ECU1", *b"APP1", *b"a.-_", *b"    "];
    let (ecu, app) = (s.pick(&ids), s.pick(&ids));
    let ps = match s.below(8) {
        0 => 1,
        1 => s.range(2, 5),
        2 => s.range(6, 40),
        3 => s.pick(&[255usize, 256, 257, 1000, 4096, 8192]),
        4 => s.pick(&[65516usize, 65517, 65517, 65518, 65500]),
        5 => 0,
        6 => s.pick(&[65518usize, 65518, 65519, 65535, 65536, 70000, 131071]),
        _ => s.range(1, 300),
    };
    let slow = s.one_in(8);
    let ps = if slow { s.range(65, 300) } else { ps };
    let n = match s.below(5) {
        _ if slow => s.range(1, 2),
        0 => s.below(4),
        1 => s.below(20),
        2 if ps < 50 => s.range(95, 110),
        3 if ps < 50 => s.range(250, 700),
        _ if ps < 6 && s.one_in(40) => s.pick(&[65535usize, 65536, 65537, 66000]) + s.below(3),
        _ => s.below(3),
    };
    let rest = if ps > 0 { s.below(ps) } else { s.below(40) };
    let len = (ps * n + rest).min(400_000);
    let (k, x) = (s.below(4), s.u8());
    let mut input: Vec<u8> = (0..len).map(|i| match k { 0 => b'\n', 1 => (i as u8).wrapping_mul(7).wrapping_add(x), 2 => if i % 3 == 0 { b'\n' } else { b'a' + (i % 26) as u8 }, _ => b"DLT\x01"[i % 4] }).collect();
    if len > 0 && s.one_in(2) {
        let i = s.below(len);
        input[i] = s.u8();
    }
    let chunk = if slow { 1 } else { s.pick(&[1usize << 20, 7, 1, 100, 4096, 65536]) };
    let chunk = if len > 3000 { chunk.max(1000) } else { chunk };
    s.note(|| format!("dd_dlt {:?} {:?} {} with {} bytes of input (kind {}), in writes of {}", String::from_utf8_lossy(&ecu), String::from_utf8_lossy(&app), ps, len, k, chunk));
    let (e, a, p) = (String::from_utf8_lossy(&ecu).to_string(), String::from_utf8_lossy(&app).to_string(), ps.to_string());
    let ok = ps > 0 && ps <= 65517;
    let w = if ok { stream(&ecu, &app, ps, &input) } else { vec![] };
    let r = run("dd_dlt", &[&e, &a, &p], Some((&input, chunk)), w.len() + 100000)?;
    ensure!((r.code == Some(0)) == ok, "dd_dlt ended with {:?}: {}", r.code, r.err.trim());
    if r.out != w {
        let i = (0..w.len().min(r.out.len())).find(|i| w[*i] != r.out[*i]).unwrap_or(w.len().min(r.out.len()));
        return Err(format!("{} bytes were written, must be {}; the first difference is at {} (message {}, byte {} of it): {} instead of {}", r.out.len(), w.len(), i, i / (34 + ps), i % (34 + ps), hex(&r.out[i..(i + 8).min(r.out.len())]), hex(&w[i..(i + 8).min(w.len())])));
    }
    // and it reads back
    let got = records(&r.out);
    if ok {
        let n = input.len() / ps;
        if k != 3 {
            ensure!(got.len() == n && got.iter().enumerate().all(|(i, x)| x.payload() == &input[i * ps..(i + 1) * ps] && x.r.ecu == ecu), "the output does not read back");
        }
    }
    Ok(w.len() > 0)
}
