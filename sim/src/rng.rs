//! The one source of choices.
#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// FNV-1a, used for digests and state hashes.
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let a = mix(seed);
        Rng(a, mix(a ^ seed.rotate_left(32)) | 1)
    }
    pub fn derive(seed: u64, tags: &[u64]) -> Rng {
        let mut s = mix(seed);
        for &t in tags {
            s = mix(s ^ mix(t));
        }
        Rng::new(s)
    }
    pub fn u64(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        mix(r)
    }
    /// 0..n (n >= 1)
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n.max(1) as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Sizes with a heavy tail, at most `max`.
    pub fn size(&mut self, max: usize) -> usize {
        let m = match self.below(8) {
            0..=3 => 4,
            4..=5 => 16,
            6 => 64,
            _ => max,
        };
        self.below(m.min(max) + 1)
    }
}
