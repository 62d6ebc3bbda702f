//! Input signals and comparisons shared by the checks.

use crate::rng::Rng;
pub use bae_rs::SAMPLE_RATE;

pub const SR: f64 = SAMPLE_RATE as f64;

/// Single-precision values of every kind, finite.
pub fn wild_f32(r: &mut Rng) -> f32 {
    match r.below(12) {
        0 => *r.pick(&[0.0f32, -0.0, 1.0, -1.0, 0.5, -0.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 1e-45, -1e-45, 2.0, 1.0000001, 0.99999994]),
        1 => f32::from_bits(r.u32() & 0x807f_ffff), // denormal
        2 | 3 => {
            let v = f32::from_bits(r.u32());
            if v.is_finite() { v } else { 1.5 }
        }
        4 => (r.below(2001) as f32) - 1000.0,
        5 => r.uni(-10.0, 10.0) as f32,
        _ => r.uni(-1.0, 1.0) as f32,
    }
}

pub fn wild_f64(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 1e300, 1e39, -1e39, 1e-50, 2.0, 1e20]),
        1 => wild_f32(r) as f64,
        2 => r.log_uni(1e-60, 1e60) * if r.chance(0.5) { 1.0 } else { -1.0 },
        3 => r.uni(-100.0, 100.0),
        _ => r.uni(-2.0, 2.0),
    }
}

/// Same value, NaN being the same as NaN and 0 as -0.
pub fn same(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

pub fn rel(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * a.abs().max(b.abs())
}

/// A signal in [-1,1] made of pieces of different character.
pub fn signal(r: &mut Rng, n: usize) -> Vec<f32> {
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let left = n - v.len();
        let len = if r.chance(0.3) { left } else { r.log_range(1, left.max(2)).min(left) };
        let kind = r.below(12);
        let a = if r.chance(0.5) { 1.0 } else { r.log_uni(1e-6, 1.0) } as f32;
        let p = r.log_uni(2.0, 20000.0);
        let dc = r.sample();
        let mut walk = 0.0f32;
        for i in 0..len {
            let x = match kind {
                0 => if i == 0 { a } else { 0.0 },
                1 => a,
                2 => if i % 2 == 0 { a } else { -a },
                3 => 0.0,
                4 => a * (2.0 * std::f64::consts::PI * i as f64 / p).sin() as f32,
                5 => dc,
                6 => f32::from_bits(r.u32() & 0x807f_ffff),
                7 => {
                    walk = (walk + 0.1 * r.sample()).max(-1.0).min(1.0);
                    walk
                }
                8 => if (i as f64 / p) as usize % 2 == 0 { a } else { -a },
                9 => if r.chance(0.05) { r.sample() } else { 0.0 },
                _ => a * r.sample(),
            };
            v.push(x);
        }
    }
    v
}

/// Running maximum of magnitudes.
pub fn peak(v: &[f32]) -> f64 {
    v.iter().fold(0.0f64, |m, x| m.max(x.abs() as f64))
}

pub fn show(v: &[f32]) -> String {
    let n = v.len().min(8);
    format!("{:?}{}", &v[..n], if v.len() > n { format!("..({})", v.len()) } else { String::new() })
}

/// Frequencies above 0 and up to half the sampling rate.
pub fn freq(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => SR / 2.0,
        1 => *r.pick(&[1.0, 10.0, 20.0, 100.0, 440.0, 1000.0, 4800.0, 8000.0, 12000.0, 16000.0, 23999.0, 23999.999]),
        2 => SR / r.range(2, 200) as f64,
        3 => SR / r.range(2, 100000) as f64,
        4 => r.range(1, 24000) as f64,
        5 => 10.0 * r.range(1, 2400) as f64,
        6 => r.log_uni(1e-6, 1.0),
        7 => r.uni(12000.0, 24000.0),
        8 => 440.0 * 2f64.powf((r.range(0, 127) as f64 - 69.0) / 12.0),
        9 => SR / 2f64.powi(r.range(1, 20) as i32),
        10 => r.uni(23000.0, 24000.0),
        _ => r.log_uni(0.5, 24000.0),
    }
    .min(SR / 2.0)
}

/// Durations of up to about `max` seconds, whole numbers of samples and odd
/// ones alike.
pub fn duration(r: &mut Rng, max: f64) -> std::time::Duration {
    use std::time::Duration;
    match r.below(10) {
        0 => Duration::from_nanos(r.below(60000) as u64),
        1 => Duration::from_micros(r.log_range(0, (max * 1e6) as usize) as u64),
        2 => Duration::from_millis(r.log_range(0, (max * 1e3) as usize) as u64),
        3 | 4 => Duration::from_secs_f64(r.log_range(0, (max * SR) as usize) as f64 / SR),
        5 => Duration::from_secs_f64((r.log_range(0, (max * SR) as usize) as f64 + 0.5 + r.uni(-0.01, 0.01)) / SR),
        6 => Duration::from_secs_f64(r.uni(max * 0.3, max)),
        7 => Duration::from_secs_f64(2f64.powi(r.range(0, 14) as i32).min(max * SR) / SR),
        _ => Duration::from_secs_f64(r.log_uni(1e-6, max)),
    }
}

/// Values that come in stretches, some of them long, of one kind each: nothing,
/// one value held, or fresh ones.
#[derive(Clone)]
pub struct Lull {
    left: usize,
    hold: Option<f32>,
    max: usize,
    quiet: f64,
}

impl Lull {
    /// Stretches of up to `max`, silent ones with the given chance.
    pub fn new(max: usize, quiet: f64) -> Lull {
        Lull { left: 0, hold: None, max, quiet }
    }

    pub fn next<F: FnMut(&mut Rng) -> f32>(&mut self, r: &mut Rng, mut f: F) -> f32 {
        if self.left == 0 {
            self.left = r.log_range(1, self.max);
            self.hold = if r.chance(self.quiet) {
                Some(0.0)
            } else if r.chance(0.3) {
                Some(f(r))
            } else {
                None
            };
        }
        self.left -= 1;
        match self.hold {
            Some(v) => v,
            None => f(r),
        }
    }
}

/// A track with long silent or constant stretches, often at its ends.
pub fn lulls(r: &mut Rng, n: usize) -> Vec<f32> {
    let q = r.uni(0.2, 0.9);
    let mut l = Lull::new(n.max(1), q);
    let mut v: Vec<f32> = (0..n).map(|_| l.next(r, |r| r.sample())).collect();
    if r.chance(0.4) {
        let k = r.below(n + 1);
        v[..k].iter_mut().for_each(|x| *x = 0.0);
    }
    if r.chance(0.4) {
        let k = r.below(n + 1);
        v[k..].iter_mut().for_each(|x| *x = 0.0);
    }
    v
}
