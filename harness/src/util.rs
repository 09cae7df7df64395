//! Small shared pieces: PRNG, hex, signature hashing.

#[derive(Clone)]
pub struct Rng(u64, u64);

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Combine several numbers into a seed. Independent of the word size.
pub fn seed_of(parts: &[u64]) -> u64 {
    let mut h = 0x9e3779b97f4a7c15u64;
    for p in parts {
        h = mix(h ^ mix(p.wrapping_add(0x9e3779b97f4a7c15)));
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5851f42d4c957f2d), mix(seed.wrapping_add(77)) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(self.1 | 1);
        mix(self.0.wrapping_add(0x9e3779b97f4a7c15))
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        (self.u64() % n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X {
        &xs[self.below(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let x = self.u64();
            for i in 0..8 {
                if v.len() < n {
                    v.push((x >> (8 * i)) as u8);
                }
            }
        }
        v
    }
    pub fn shuffle<X>(&mut self, xs: &mut [X]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// FNV-1a style running signature, for counting distinct observations.
#[derive(Clone, Copy)]
pub struct Sig(pub u64);

impl Sig {
    pub fn new() -> Self {
        Sig(0xcbf29ce484222325)
    }
    pub fn add(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.0 = mix(self.0 ^ u64::from_le_bytes(x)).wrapping_add(c.len() as u64);
        }
    }
    pub fn num(&mut self, n: u64) {
        self.0 = mix(self.0 ^ n.wrapping_mul(0x9e3779b97f4a7c15));
    }
}

pub fn clip(mut s: String, n: usize) -> String {
    if s.len() > n {
        let mut i = n;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.truncate(i);
        s.push_str("...");
    }
    s
}

/// An iterator over given items whose size hint is right, but says as little
/// as `style` wants. It is not fused: after its end it would go on.
pub struct Hinted<T: Clone> {
    it: std::vec::IntoIter<T>,
    style: usize,
    over: Option<T>,
}

pub const HINTS: usize = 7;

pub fn hinted<T: Clone>(xs: Vec<T>, style: usize) -> Hinted<T> {
    let over = if style % 2 == 1 { xs.last().cloned() } else { None };
    Hinted { it: xs.into_iter(), style, over }
}

impl<T: Clone> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.it.next() {
            Some(x) => Some(x),
            None => {
                // The end; what comes after it must not be asked for.
                if let Some(x) = self.over.take() {
                    self.it = vec![x].into_iter();
                }
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.style % HINTS {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, None),
            3 => (0, Some(2 * n + 1)),
            4 => (n.min(1), Some(n)),
            5 => (n.saturating_sub(1), Some(n + 3)),
            _ => (n, Some(usize::MAX)),
        }
    }
}
