//! Small deterministic generator (xoshiro256**, seeded by splitmix64); the only source of randomness of the monitors.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// Uniform in 0..n (0 when n is 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f64() < p
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// Uniform f32 in [lo, hi].
    pub fn f32(&mut self, lo: f32, hi: f32) -> f32 {
        (lo as f64 + (hi as f64 - lo as f64) * self.f64()) as f32
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// Random unit quaternion [x, y, z, w], w of either sign.
    pub fn quat(&mut self) -> [f32; 4] {
        loop {
            let q: Vec<f64> = (0..4).map(|_| self.f64() * 2.0 - 1.0).collect();
            let l = q.iter().map(|c| c * c).sum::<f64>().sqrt();
            if (0.1..=1.0).contains(&l) {
                return [(q[0] / l) as f32, (q[1] / l) as f32, (q[2] / l) as f32, (q[3] / l) as f32];
            }
        }
    }
    pub fn unit3(&mut self) -> [f32; 3] {
        loop {
            let q: Vec<f64> = (0..3).map(|_| self.f64() * 2.0 - 1.0).collect();
            let l = q.iter().map(|c| c * c).sum::<f64>().sqrt();
            if (0.1..=1.0).contains(&l) {
                return [(q[0] / l) as f32, (q[1] / l) as f32, (q[2] / l) as f32];
            }
        }
    }
    pub fn vec3(&mut self, r: f32) -> [f32; 3] {
        [self.f32(-r, r), self.f32(-r, r), self.f32(-r, r)]
    }
}
