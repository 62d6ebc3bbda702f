//! Deterministic random numbers: every choice derives from VERIF_SEED, the
//! property, the family and the case index.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0xff51_afd7_ed55_8ccd);
    x ^= x >> 32;
    x = x.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
    x ^ (x >> 29)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = fnv(h, b as u64 + 1);
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s }
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }

    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }

    /// Uniform in a..=b.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }

    /// Integer in a..=b, small values as likely as large ones.
    pub fn log_range(&mut self, a: usize, b: usize) -> usize {
        let x = self.log_uni(a as f64 + 1.0, b as f64 + 2.0);
        ((x as usize).max(1) - 1).max(a).min(b)
    }

    pub fn chance(&mut self, p: f64) -> bool {
        self.f64() < p
    }

    /// Uniform in [0,1).
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }

    pub fn uni(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f64()
    }

    pub fn log_uni(&mut self, a: f64, b: f64) -> f64 {
        (self.uni(a.ln(), b.ln())).exp().max(a).min(b)
    }

    /// Uniform in [-1,1], end points and zero included now and then.
    pub fn sample(&mut self) -> f32 {
        match self.below(64) {
            0 => 1.0,
            1 => -1.0,
            2 => 0.0,
            _ => self.uni(-1.0, 1.0) as f32,
        }
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
