//! SplitMix64: deterministic, seeded per case so that any single case can be replayed alone.
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, salt: &str, k: u64) -> Rng {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in salt.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(h ^ k.wrapping_mul(0xD1B54A32D192ED03));
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    /// lo..=hi
    pub fn r(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }
    /// true with probability p percent
    pub fn p(&mut self, p: usize) -> bool {
        self.n(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len())]
    }
    pub fn s(&mut self, v: &[&str]) -> String {
        v[self.n(v.len())].to_string()
    }
    pub fn opt<T>(&mut self, p: usize, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
        if self.p(p) { Some(f(self)) } else { None }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.n(i + 1);
            v.swap(i, j);
        }
    }
}
