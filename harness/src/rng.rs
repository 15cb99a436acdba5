//! Deterministic random source; every case is a function of (seed, property, index).

#[derive(Clone)]
pub struct Rng(u64, u64);

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, tag: &str, index: u64) -> Rng {
        let mut h = mix(seed ^ 0x9E3779B97F4A7C15);
        for b in tag.bytes() {
            h = mix(h ^ u64::from(b).wrapping_mul(0x100000001B3));
        }
        h = mix(h ^ index.wrapping_mul(0xD6E8FEB86659FD93));
        Rng(h, mix(h ^ 0x1234567))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0 ^ self.1)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.next() % n as u64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a) as u64 + 1)) as i64
    }
    /// true in p percent of the calls
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j)
        }
    }
}
