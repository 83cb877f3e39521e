//! C16: buffers of files.
use crate::ensure;
use crate::recs::*;
use crate::src::{Src, R};
use matchit::partition_from;
use rapiddlt::dlt_v1::DltStorageEntry;
use rapiddlt::dltbuffer::DltBuffer;

/// a file with more bytes than 31 bits, or 32, can count, of which few are there: mapped, not read
fn far(s: &mut Src, name: &str) -> R {
    use std::os::unix::fs::FileExt;
    let n = s.pick(&[1u64 << 31, 1 << 32, 1 << 33, 9 << 30, 1 << 35, 100_000_000, 1 << 40]) + s.below(9) as u64 - 4;
    let mut at: Vec<u64> = (0..6).map(|i| if i < 3 { n - 1 - s.below(40) as u64 } else { s.pick(&[0u64, 1 << 31, 1 << 32, 1 << 33, 99_999_990]) + s.below(20) as u64 }).filter(|x| *x < n).collect();
    at.sort();
    at.dedup();
    s.note(|| format!("file of {} bytes, zero but for those at {:?}", n, at));
    let _ = std::fs::remove_file(name);
    let Ok(f) = std::fs::File::create(name) else { return Ok(false) };
    let made = f.set_len(n).is_ok() && at.iter().all(|x| f.write_at(&[(*x % 251) as u8 + 1], *x).is_ok());
    drop(f);
    let r = if !made { Ok(false) } else {
        (|| {
            let b = match DltBuffer::mmap_file(name) {
                Ok(b) => b,
                // there may be no room for that much
                Err(e) if e.raw_os_error() == Some(12) => return Ok(false),
                Err(e) => return Err(format!("mmap_file: {}", e)),
            };
            let c = b.as_slice();
            ensure!(b.len() as u64 == n && c.len() as u64 == n, "mmap_file: len {} and a slice of {}, must be {}", b.len(), c.len(), n);
            for x in &at {
                for y in x.saturating_sub(2)..(x + 3).min(n) {
                    let w = if at.contains(&y) { (y % 251) as u8 + 1 } else { 0 };
                    ensure!(c[y as usize] == w, "mmap_file: byte {} is {}, must be {}", y, c[y as usize], w);
                }
            }
            Ok(true)
        })()
    };
    let _ = std::fs::remove_file(name);
    r
}
pub fn c16(s: &mut Src) -> R {
    let dir = std::env::var("ENGINE_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let name = format!("{}/c16.{}", dir, std::process::id());
    let kind = s.below(8);
    if s.one_in(200) {
        return far(s, &format!("{}.far", name));
    }
    if kind == 0 {
        s.note(|| "a file that is not there, a directory".into());
        for f in [format!("{}/none", name), dir.clone()] {
            ensure!(DltBuffer::read_file(&f).is_err(), "read_file({}) is not an error", f);
            ensure!(DltBuffer::mmap_file(&f).is_err(), "mmap_file({}) is not an error", f);
        }
        return Ok(true);
    }
    let v = match kind {
        1 => {
            // around the size of a read buffer
            let n = s.pick(&[4096usize, 8192, 16384, 65536, 1 << 18]) + s.below(5) - 2;
            let x = s.u8();
            (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add((i >> 8) as u8).wrapping_add(x)).collect()
        }
        2 => vec![],
        _ => dlt_bytes(s, true),
    };
    if kind == 3 && s.one_in(4) {
        // its length is not known in front
        s.note(|| format!("named pipe with {} bytes {}", v.len(), hex(&v)));
        let name = format!("{}.pipe", name);
        let _ = std::fs::remove_file(&name);
        match std::process::Command::new("mkfifo").arg(&name).status() {
            Ok(c) if c.success() => (),
            _ => return Ok(false),
        }
        let (to, what) = (name.clone(), v.clone());
        let w = std::thread::spawn(move || {
            if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(to) {
                use std::io::Write;
                let n = (what.len() / 3).max(1);
                what.chunks(n).for_each(|x| drop(f.write_all(x)));
            }
        });
        let (tx, rx) = std::sync::mpsc::channel();
        let from = name.clone();
        std::thread::spawn(move || drop(tx.send(DltBuffer::read_file(&from))));
        // (who opens a pipe more than once may wait for ever)
        let Ok(r) = rx.recv_timeout(std::time::Duration::from_secs(5)) else { return Ok(false) };
        if r.is_err() {
            // the writer may still wait
            let _ = std::fs::File::open(&name);
        }
        let _ = w.join();
        let _ = std::fs::remove_file(&name);
        let b = r.map_err(|e| format!("read_file: {}", e))?;
        ensure!(b.len() == v.len() && b.as_slice() == &v[..], "read_file: {} bytes, must be the {} of the pipe", b.len(), v.len());
        return Ok(!v.is_empty());
    }
    s.note(|| format!("file of {} bytes {}", v.len(), hex(&v)));
    std::fs::write(&name, &v).map_err(|e| e.to_string())?;
    let r = (|| {
        let mut bufs = vec![("read_file", DltBuffer::read_file(&name).map_err(|e| format!("read_file: {}", e))?)];
        match DltBuffer::mmap_file(&name) {
            Ok(b) => bufs.push(("mmap_file", b)),
            // an empty file cannot be mapped
            Err(e) => ensure!(v.is_empty(), "mmap_file: {}", e),
        }
        for (n, b) in &bufs {
            ensure!(b.len() == v.len(), "{}: len {}, must be {}", n, b.len(), v.len());
            ensure!(b.as_slice() == &v[..], "{}: the bytes differ", n);
            for k in [1, 2, 3, 7] {
                let p = b.partition::<DltStorageEntry>(k);
                let w = partition_from::<DltStorageEntry>(&v, k);
                ensure!(p == w, "{}: partition({}) has the lengths {:?}, must be {:?}", n, k, p.iter().map(|x| x.len()).collect::<Vec<_>>(), w.iter().map(|x| x.len()).collect::<Vec<_>>());
            }
        }
        Ok(!v.is_empty())
    })();
    let _ = std::fs::remove_file(&name);
    r
}
