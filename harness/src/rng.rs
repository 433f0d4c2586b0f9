//! Small deterministic PRNG (splitmix64 seeding, xoshiro256**), so that a case is replayed from its seed alone.
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
static SMALL: AtomicBool = AtomicBool::new(false);
/// Tiny workloads, for interpreters that are some ten thousand times slower.
pub fn small() -> bool {
    SMALL.load(Relaxed)
}
pub fn set_small(s: bool) {
    SMALL.store(s, Relaxed);
}
/// n, or the smaller value when workloads are to be tiny
pub fn cap(n: usize, small_n: usize) -> usize {
    if small() {
        n.min(small_n)
    } else {
        n
    }
}
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = [0; 4];
        let mut z = seed;
        for x in s.iter_mut() {
            z = mix(z);
            *x = z;
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.u64() % n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        let (lo, hi) = if small() { (lo.min(34), hi.min(lo.min(34) + 2)) } else { (lo, hi) };
        lo + self.below(hi - lo + 1)
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn sym(&mut self) -> f64 {
        self.unit() * 2.0 - 1.0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
