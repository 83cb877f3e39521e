//! A case is a string of choices (bytes): everything a case needs is drawn from it.
//! Drawing behind its end gives zeros, so every string of bytes is a case, and cutting or
//! zeroing bytes gives a smaller case.
pub struct Src<'a> {
    d: &'a [u8],
    pos: usize,
    pub desc: Option<Vec<String>>,
}
impl<'a> Src<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Src { d, pos: 0, desc: None }
    }
    pub fn u8(&mut self) -> u8 {
        let v = self.d.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    /// 0 .. n-1
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if n <= 256 {
            return self.u8() as usize % n;
        }
        let v = (self.u8() as usize) << 16 | (self.u8() as usize) << 8 | self.u8() as usize;
        v % n
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi + 1 - lo)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == n - 1
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes([self.u8(), self.u8(), self.u8(), self.u8()])
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn pick<T: Clone>(&mut self, x: &[T]) -> T {
        x[self.below(x.len())].clone()
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.d.len()
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(d) = &mut self.desc {
            d.push(f())
        }
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn case(&mut self) -> Vec<u8> {
        let n = match self.next() % 8 {
            0 => 16,
            1 | 2 => 48,
            3 | 4 | 5 => 160,
            _ => 420,
        };
        let n = 4 + (self.next() as usize) % n;
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        // stretches of small choices
        if self.next() % 3 == 0 {
            for _ in 0..4 {
                let a = self.next() as usize % v.len();
                let b = (a + self.next() as usize % 32).min(v.len());
                let x = self.next() as u8 % 8;
                v[a..b].iter_mut().for_each(|c| *c = x);
            }
        }
        v
    }
}

/// Ok(true): the case exercised the property; Ok(false): trivially true
pub type R = Result<bool, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// an iterator gives the same items whichever of the methods that every iterator has it is asked
/// with (they can be overridden, or shadowed by a method of the type)
#[macro_export]
macro_rules! ways {
    ($s:expr, $name:expr, $mk:expr, $want:expr, $p:expr) => {{
        let want = &$want;
        let n = want.len();
        let k = $s.below(n + 2);
        let name = $name;
        match $s.below(16) {
            0 => {
                let g = $mk.count();
                ensure!(g == n, "{}: count() is {}, must be {}", name, g, n)
            }
            1 => {
                let g = $mk.last().map($p);
                ensure!(g.as_ref() == want.last(), "{}: last() is {:?}, must be {:?}", name, g, want.last())
            }
            2 => {
                let mut it = $mk;
                let g = it.nth(k).map($p);
                ensure!(g.as_ref() == want.get(k), "{}: nth({}) is {:?}, must be {:?}", name, k, g, want.get(k));
                let g = it.next().map($p);
                ensure!(g.as_ref() == want.get(k + 1), "{}: next() behind nth({}) is {:?}, must be {:?}", name, k, g, want.get(k + 1))
            }
            3 => {
                let g: Vec<_> = $mk.skip(k).map($p).collect();
                ensure!(g == want[k.min(n)..], "{}: behind skip({}) there is {:?}, must be {:?}", name, k, g, &want[k.min(n)..])
            }
            4 => {
                let g: Vec<_> = $mk.step_by(k + 1).map($p).collect();
                let w: Vec<_> = want.iter().step_by(k + 1).cloned().collect();
                ensure!(g == w, "{}: step_by({}) gives {:?}, must be {:?}", name, k + 1, g, w)
            }
            5 => {
                let g = $mk.fold(vec![], |mut v, x| {
                    v.push(($p)(x));
                    v
                });
                ensure!(g == *want, "{}: fold gives {:?}, must be {:?}", name, g, want)
            }
            6 => {
                let mut it = $mk;
                for i in 0..=n {
                    let (lo, hi) = it.size_hint();
                    ensure!(lo <= n - i && hi.map_or(true, |h| h >= n - i), "{}: size_hint() is {:?} with {} items to come", name, (lo, hi), n - i);
                    let _ = it.next();
                }
            }
            7 => {
                let mut g = vec![];
                $mk.for_each(|x| g.push(($p)(x)));
                ensure!(g == *want, "{}: for_each gives {:?}, must be {:?}", name, g, want)
            }
            8 => {
                let mut it = $mk;
                let mut g: Vec<_> = it.by_ref().take(k).map($p).collect();
                ensure!(g == want[..k.min(n)], "{}: take({}) gives {:?}, must be {:?}", name, k, g, &want[..k.min(n)]);
                g.extend(it.map($p));
                ensure!(g == *want, "{}: take({}) and what comes behind it is {:?}, must be {:?}", name, k, g, want)
            }
            9 => {
                let g: Vec<_> = $mk.map($p).collect();
                ensure!(g == *want, "{}: collect gives {:?}, must be {:?}", name, g, want)
            }
            10 => {
                let w = want.get(k).cloned();
                let g = $mk.position(|x| Some(($p)(x)) == w);
                let e = want.iter().position(|x| Some(x) == w.as_ref());
                ensure!(g == e, "{}: position is {:?}, must be {:?}", name, g, e)
            }
            11 => {
                let mut c = 0;
                let mut it = $mk;
                let g = it.find(|_| {
                    c += 1;
                    c > k
                }).map($p);
                ensure!(g.as_ref() == want.get(k), "{}: find of item {} is {:?}, must be {:?}", name, k, g, want.get(k));
                let _ = it.all(|_| true);
                ensure!(it.next().is_none(), "{}: there are items behind all()", name)
            }
            _ => (),
        }
    }};
}
