//! The source of random choices.  Every random decision of every generator is
//! drawn from here, recorded, and can be replayed and shrunk: value 0 is always
//! the simplest alternative.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    // splitmix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x100_0000_01B3) ^ b.rotate_left(23));
    r.next() ^ b
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h, s.len() as u64)
}

pub enum Mode {
    Random(Rng),
    Replay,
}

pub struct Src {
    mode: Mode,
    fixed: Vec<u32>,
    pos: usize,
    pub rec: Vec<u32>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { mode: Mode::Random(Rng::new(seed)), fixed: vec![], pos: 0, rec: vec![] }
    }
    pub fn replay(choices: Vec<u32>) -> Self {
        Src { mode: Mode::Replay, fixed: choices, pos: 0, rec: vec![] }
    }
    /// A value in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let v = match &mut self.mode {
            Mode::Random(r) => ((r.next() >> 32) as u128 * n as u128 >> 32) as usize,
            Mode::Replay => {
                let v = self.fixed.get(self.pos).copied().unwrap_or(0) as usize;
                self.pos += 1;
                v.min(n - 1)
            }
        };
        self.rec.push(v as u32);
        v
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; false is the simple case
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// index chosen by weight (first = simplest)
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// small number, geometric-like, 0..=max
    pub fn small(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.chance(1, 2) {
            n += 1;
        }
        n
    }
}
