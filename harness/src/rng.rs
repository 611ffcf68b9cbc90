//! The harness' own seeded generator (splitmix64).
#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// 0..n
    pub fn n(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    /// lo..=hi
    pub fn r(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.n((hi - lo + 1) as u64) as i64
    }
    pub fn u(&mut self, n: usize) -> usize {
        self.n(n as u64) as usize
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn ff(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }
    pub fn p(&mut self, pct: u64) -> bool {
        self.n(100) < pct
    }
    pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
        let i = self.u(l.len());
        &l[i]
    }
}
/// Short seed that stays exactly representable everywhere.
pub fn seed32(r: &mut Rng) -> u64 {
    r.next() >> 33
}
