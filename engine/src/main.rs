//! Searches for an input on which the real code breaks a property, by the oracles of this
//! crate; replays and shrinks what it finds. It decides nothing that is proved: it gives a
//! failing input for a failed obligation, and stands in (bounded) where a proof is lost.
//!   engine run PROP --seed S --ms N --jobs J --dir D     search
//!   engine replay PROP FILE                              run one case (hex in "case" of a replay file)
mod cmds;
mod dlt;
mod gener;
mod io;
mod recs;
mod search;
mod src;

use recs::Toy;
use rapiddlt::dlt_v1::DltStorageEntry as Dlt;
use src::{Rng, Src, R};
use std::collections::HashSet;
use std::io::Write;
use std::panic::catch_unwind;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

fn toy_or_dlt(s: &mut Src, toy: fn(&mut Src) -> R, dlt: fn(&mut Src) -> R) -> R {
    if s.below(3) < 2 { toy(s) } else { dlt(s) }
}
fn case(prop: &str, s: &mut Src) -> R {
    match prop {
        "C01" => dlt::c01(s),
        "C02" => dlt::c02(s),
        "C03" => dlt::c03(s),
        "C04" => dlt::c04(s),
        "C05" => dlt::c05(s),
        "C06" => dlt::c06(s),
        "C07" => toy_or_dlt(s, search::c07::<Toy>, search::c07::<Dlt>),
        "C08" => match s.below(4) {
            0 | 1 => search::c08::<Toy>(s),
            2 => search::c08::<Dlt>(s),
            _ => search::c08_dlt(s),
        },
        "C09" => toy_or_dlt(s, search::c09::<Toy>, search::c09::<Dlt>),
        "C10" => toy_or_dlt(s, search::c10::<Toy>, search::c10::<Dlt>),
        "C11" => match s.below(4) {
            0 | 1 => search::c11::<Toy>(s),
            2 => search::c11::<Dlt>(s),
            _ => search::c11_dlt(s),
        },
        "C12" => toy_or_dlt(s, search::c12::<Toy>, search::c12::<Dlt>),
        "C13" => toy_or_dlt(s, search::c13::<Toy>, search::c13::<Dlt>),
        "C14" => toy_or_dlt(s, |s| search::parts::<Toy>(s, false, search::part::<Toy>), |s| search::parts::<Dlt>(s, false, search::part::<Dlt>)),
        "C15" => toy_or_dlt(s, |s| search::parts::<Toy>(s, true, search::part::<Toy>), |s| search::parts::<Dlt>(s, true, search::part::<Dlt>)),
        "C16" => io::c16(s),
        "C17" => gener::c17(s),
        "C18" => gener::c18(s),
        "C19" => gener::c19(s),
        "C20" => gener::c20(s),
        "C21" => gener::c21(s),
        "C22" => gener::c22(s),
        "C23" => cmds::c23(s),
        "C24" => cmds::c24(s),
        "C25" => cmds::c25(s),
        "C26" => cmds::c26(s),
        "C27" => cmds::c27(s),
        p => panic!("no property {}", p),
    }
}
thread_local!(static LAST: std::cell::RefCell<String> = Default::default());
/// Ok(nontrivial) or what is wrong
fn eval(prop: &str, d: &[u8]) -> R {
    match catch_unwind(|| case(prop, &mut Src::new(d))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST.with(|l| l.borrow().clone()))),
    }
}
fn describe(prop: &str, d: &[u8]) -> String {
    let mut s = Src::new(d);
    s.desc = Some(vec![]);
    let p = &mut s as *mut Src;
    let _ = catch_unwind(|| case(prop, unsafe { &mut *p }));
    s.desc.unwrap().join("; ")
}
fn shrink(prop: &str, d: Vec<u8>) -> Vec<u8> {
    let t = Instant::now();
    let mut d = d;
    loop {
        let mut better = None;
        let mut size = d.len().max(1);
        'o: while size > 0 {
            for i in (0..d.len()).rev() {
                if t.elapsed() > Duration::from_secs(4) {
                    return d;
                }
                for m in 0..3 {
                    let mut c = d.clone();
                    let e = (i + size).min(c.len());
                    match m {
                        0 => drop(c.drain(i..e)),
                        1 => c[i..e].iter_mut().for_each(|x| *x = 0),
                        _ => c[i..e].iter_mut().for_each(|x| *x /= 2),
                    }
                    if (c.len(), &c) < (d.len(), &d) && eval(prop, &c).is_err() {
                        better = Some(c);
                        break 'o;
                    }
                }
            }
            size /= 2;
        }
        match better {
            Some(c) => d = c,
            None => return d,
        }
    }
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn allhex(d: &[u8]) -> String {
    d.iter().map(|x| format!("{:02x}", x)).collect()
}
fn report(prop: &str, d: &[u8], msg: &str, desc: &str) -> String {
    format!("{{\"property\": \"{}\", \"case\": \"{}\", \"input\": \"{}\", \"what\": \"{}\"}}", prop, allhex(d), esc(desc), esc(msg))
}

/// the program that runs for the current case (0: none)
pub static CHILD: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
static STARTED: AtomicU64 = AtomicU64::new(0);
fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}
/// worker: searches, last line of stdout is its result
fn worker(prop: &str, seed: u64, ms: u64, cur: &str) {
    let t = Instant::now();
    let mut rng = Rng(seed);
    let mut seen: HashSet<u64> = HashSet::new();
    let (mut n, mut samples) = (0u64, vec![]);
    let file = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(cur).unwrap();
    use std::os::unix::fs::FileExt;
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = STARTED.load(Ordering::Relaxed);
        if s != 0 && now() > s + 8000 {
            println!("HANG");
            let c = CHILD.load(Ordering::Relaxed);
            if c != 0 {
                let _ = std::process::Command::new("kill").args(["-9", &c.to_string()]).status();
            }
            std::process::exit(7);
        }
    });
    while t.elapsed().as_millis() < ms as u128 {
        let d = rng.case();
        let mut rec = (d.len() as u32).to_le_bytes().to_vec();
        rec.extend(&d);
        file.write_at(&rec, 0).unwrap();
        STARTED.store(now(), Ordering::Relaxed);
        n += 1;
        match eval(prop, &d) {
            Ok(true) => {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                describe_key(prop, &d).hash(&mut h);
                seen.insert(h.finish());
                if samples.len() < 2 && n > 20 {
                    samples.push(describe(prop, &d));
                }
            }
            Ok(false) => {}
            Err(_) => {
                STARTED.store(0, Ordering::Relaxed);
                let e = shrink(prop, d.clone());
                let m = eval(prop, &e).err().unwrap_or_default();
                let r = report(prop, &e, &m, &describe(prop, &e));
                // what fails only behind the cases in front of it is found again by them
                println!("FAIL {}, \"seed\": {}, \"count\": {}}}", &r[..r.len() - 1], seed, n);
                std::process::exit(1);
            }
        }
        STARTED.store(0, Ordering::Relaxed);
    }
    println!("OK {{\"evaluations\": {}, \"distinct\": {}, \"samples\": [{}]}}", n, seen.len(), samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "));
    let _ = std::fs::remove_file(cur);
}
/// cases are told apart by the choices they draw
fn describe_key(_prop: &str, d: &[u8]) -> Vec<u8> {
    d.to_vec()
}

fn main() {
    std::panic::set_hook(Box::new(|i| LAST.with(|l| *l.borrow_mut() = i.to_string().replace('\n', " "))));
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    match a[1].as_str() {
        "worker" => worker(&a[2], opt("--seed").unwrap().parse().unwrap(), opt("--ms").unwrap().parse().unwrap(), &opt("--cur").unwrap()),
        "replay" => {
            let t = std::fs::read_to_string(&a[3]).unwrap();
            let i = t.find("\"case\": \"").expect("no case in the file") + 9;
            let d = unhex(&t[i..i + t[i..].find('"').unwrap()]);
            println!("input: {}", describe(&a[2], &d));
            let num = |k: &str| t.find(k).map(|i| t[i + k.len()..].trim_start().split([',', '}', '\n']).next().unwrap().trim().parse::<u64>().unwrap());
            match eval(&a[2], &d) {
                Ok(_) => {
                    println!("the property holds on this input");
                    if let (Some(seed), Some(n)) = (num("\"seed\":"), num("\"count\":")) {
                        // by itself; and in one process with the cases that were run in front of it?
                        let mut rng = Rng(seed);
                        for i in 0..n + 200 {
                            let d = rng.case();
                            if let Err(m) = eval(&a[2], &d) {
                                println!("VIOLATED: {} (in a process that has run {} cases from seed {}: {})", m, i, seed, describe(&a[2], &d));
                                std::process::exit(1)
                            }
                        }
                    }
                }
                Err(m) => {
                    println!("VIOLATED: {}", m);
                    std::process::exit(1)
                }
            }
        }
        "run" => {
            let (ms, jobs, dir) = (opt("--ms").unwrap(), opt("--jobs").unwrap().parse::<u64>().unwrap(), opt("--dir").unwrap());
            let seed: u64 = opt("--seed").unwrap().parse().unwrap();
            std::fs::create_dir_all(&dir).unwrap();
            let me = std::env::current_exe().unwrap();
            let ws: Vec<_> = (0..jobs)
                .map(|j| {
                    let cur = format!("{}/cur.{}.{}", dir, std::process::id(), j);
                    let c = std::process::Command::new(&me)
                        .args(["worker", &a[2], "--seed", &(seed.wrapping_mul(1000003) ^ (j << 40)).to_string(), "--ms", &ms, "--cur", &cur])
                        .env("ENGINE_SCRATCH", &dir)
                        .stdout(std::process::Stdio::piped())
                        .stderr(std::process::Stdio::null())
                        .spawn()
                        .unwrap();
                    (c, cur)
                })
                .collect();
            let (mut n, mut d, mut samples) = (0u64, 0u64, vec![]);
            let mut fail = None;
            for (c, cur) in ws {
                let o = c.wait_with_output().unwrap();
                let t = String::from_utf8_lossy(&o.stdout).to_string();
                let last = t.lines().last().unwrap_or("").to_string();
                if let Some(r) = last.strip_prefix("OK ") {
                    let num = |k: &str| r[r.find(k).unwrap() + k.len() + 3..].split([',', '}']).next().unwrap().trim().parse::<u64>().unwrap();
                    n += num("evaluations");
                    d += num("distinct");
                    if samples.is_empty() {
                        samples.push(r[r.find("[").unwrap()..r.rfind(']').unwrap() + 1].to_string());
                    }
                } else if let Some(r) = last.strip_prefix("FAIL ") {
                    fail = fail.or(Some(r.to_string()));
                } else {
                    let b = std::fs::read(&cur).unwrap_or_default();
                    if b.len() >= 4 {
                        let k = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
                        let case = &b[4..(4 + k).min(b.len())];
                        let what = if last == "HANG" { "does not end within 8 s".to_string() } else { format!("the process died: {:?}", o.status) };
                        fail = Some(report(&a[2], case, &what, ""));
                    } else {
                        eprintln!("worker died: {:?} {}", o.status, t);
                        std::process::exit(9);
                    }
                }
                let _ = std::fs::remove_file(&cur);
            }
            match fail {
                Some(f) => {
                    println!("FAIL {}", f);
                    std::io::stdout().flush().unwrap();
                    std::process::exit(1)
                }
                None => println!("OK {{\"evaluations\": {}, \"distinct\": {}, \"samples\": {}}}", n, d, samples.join(", ")),
            }
        }
        _ => std::process::exit(2),
    }
}
