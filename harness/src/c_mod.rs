//! C13 ADSR, C14 low- and high-pass, C15 band-pass, C16 delay, C17 echo,
//! C18 envelope follower, C19 generic, gain and pass-through.

use crate::ensure;
use crate::rng::*;
use crate::rt::*;
use crate::util::*;
use bae_rs::modifiers::*;
use std::f64::consts::PI;
use std::time::Duration;

// ---------------------------------------------------------------- C13

/// Ideal gain after t samples without release.
fn ads(t: f64, a: f64, d: f64, s: f64) -> f64 {
    if t <= 0.0 {
        0.0
    } else if t < a {
        t / a
    } else if t < a + d {
        1.0 + (s - 1.0) * (t - a) / d
    } else {
        s
    }
}

fn ads_range(n: f64, a: f64, d: f64, s: f64) -> (f64, f64) {
    // A stage may last up to a sample longer, and every stage lasts at least
    // one sample.
    let (t0, t1) = (n - 2.5, n + 1.01);
    let mut lo = f64::MAX;
    let mut hi = f64::MIN;
    let mut see = |t: f64| {
        let g = ads(t, a, d, s);
        lo = lo.min(g);
        hi = hi.max(g);
    };
    see(t0);
    see(t1);
    for b in [a, a + d] {
        if b >= t0 && b <= t1 {
            see(b);
            see(b - 1e-9);
        }
    }
    drop(see);
    if a >= t0 && a <= t1 {
        hi = 1.0; // also for stages without length
    }
    if a + d >= t0 && a + d <= t1 {
        lo = lo.min(s);
    }
    (lo, hi)
}

pub fn level(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => f64::NEG_INFINITY,
        1 => *r.pick(&[0.0, -0.0, 3.0, 100.0, f64::INFINITY]),
        2 => *r.pick(&[-3.0, -6.0, -12.0, -120.0, -0.001, -1e-9, -1000.0]),
        3 => r.uni(-1.0, 0.0),
        4 => r.uni(-150.0, -50.0),
        _ => r.uni(-60.0, 0.0),
    }
}

fn adsr_one(c: &mut Case, max: f64, releases: bool) -> R {
    let mut time = || if max >= 200.0 && c.rng.chance(0.5) { Duration::from_secs_f64(c.rng.uni(100.0, max)) } else { duration(&mut c.rng, max) };
    let (a, d, r) = (time(), time(), time());
    let (a, d, r) = (
        if c.rng.chance(0.1) { Duration::default() } else { a },
        if c.rng.chance(0.1) { Duration::default() } else { d },
        if c.rng.chance(0.1) { Duration::default() } else { r },
    );
    let db = level(&mut c.rng);
    let s = if db >= 0.0 { 1.0 } else { 10f64.powf(db / 20.0) };
    let (an, dn, rn) = (a.as_secs_f64() * SR, d.as_secs_f64() * SR, r.as_secs_f64() * SR);
    // When to release: within any stage, at its borders, or never.
    let total = an + dn;
    let rel_at = if !releases {
        usize::MAX
    } else {
        match c.rng.below(8) {
            0 => 0,
            1 => 1,
            2 => (an.ceil() as usize).saturating_sub(1) + c.rng.below(4),
            3 => (total.ceil() as usize).saturating_sub(1) + c.rng.below(4),
            4 => c.rng.below(an as usize + 1),
            5 => an as usize + c.rng.below(dn as usize + 1),
            _ => total as usize + c.rng.below(500),
        }
    };
    c.desc(format!("attack {:?} decay {:?} sustain {} dB release {:?}, released after {} samples", a, d, db, r, rel_at as i64));
    let mut one = ADSR::new(a, d, db, r);
    let mut snd = ADSR::new(a, d, db, r);
    let n_end = if rel_at == usize::MAX {
        (total * 1.2) as usize + 300
    } else {
        rel_at + rn as usize + 400
    };
    let mut lull = if c.rng.chance(0.3) { Some(Lull::new(n_end, 0.7)) } else { None };
    let mut g0 = 0.0f64;
    let mut prev = 0.0f64;
    let mut again = rel_at;
    let rr = rn.max(1.0);
    for n in 1..=n_end {
        if n % (1 << 20) == 0 && c.late() {
            break;
        }
        if n - 1 == rel_at {
            one.release();
            snd.release();
            g0 = prev;
        } else if n > rel_at && n > again && c.rng.chance(0.02) {
            // Releasing again changes nothing.
            one.release();
            snd.release();
            again = n;
            c.ev("repeated_releases", 1);
        }
        let g32 = one.process(1.0);
        let g = g32 as f64;
        ensure!(g32 >= 0.0 && g32 <= 1.0, "gain {} after {} samples", g32, n);
        if n <= rel_at {
            let (lo, hi) = ads_range(n as f64, an, dn, s);
            let tol = 1e-6 * hi + 1e-9;
            ensure!(g >= lo - tol && g <= hi + tol, "gain {} after {} samples instead of {}..{}", g, n, lo, hi);
        } else {
            let k = (n - rel_at) as f64;
            ensure!(g <= prev, "gain rises from {} to {} in release (sample {} of it)", prev, g, k);
            let lo = (g0 * (1.0 - (k + 1.3) / rr)).max(0.0);
            let hi = (g0 * (1.0 - (k - 1.3) / rr)).max(0.0);
            let tol = 1e-6 * g0 + 1e-9;
            ensure!(g >= lo - tol && g <= hi + tol, "gain {} at sample {} of the release of {} samples from {}, instead of {}..{}", g, k, rr, g0, lo, hi);
            if k >= rr.ceil() + 1.0 {
                ensure!(g32 == 0.0, "gain {} at sample {} of a release of {} samples", g32, k, rr);
                c.ev("silent_after_release", 1);
            }
        }
        prev = g;
        let x = match &mut lull {
            Some(l) => l.next(&mut c.rng, |r| r.sample()),
            None if n % 64 == 0 => *c.rng.pick(&[1.0f32, -1.0]) * c.rng.log_uni(1e-25, 1e30) as f32,
            None => c.rng.sample(),
        };
        let y = snd.process(x);
        let w = x as f64 * g;
        ensure!(close(y as f64, w, 3e-7 * w.abs() + 1e-7 * x.abs() as f64 * 1e-3 + 1e-38), "input {} at gain {} gives {}", x, g, y);
        if n < 200 {
            c.fold_f(g32);
        }
    }
    c.ev("gains", n_end as u64);
    if rel_at != usize::MAX {
        c.ev("released", 1);
    }
    c.nontrivial();
    Ok(())
}

fn adsr_short(c: &mut Case) -> R {
    for _ in 0..6 {
        let rel = c.rng.chance(0.8);
        let m = *c.rng.pick(&[0.0005, 0.005, 0.05]);
        adsr_one(c, m, rel)?;
    }
    Ok(())
}

/// Stages of many minutes.
fn adsr_minutes(c: &mut Case) -> R {
    let m = c.rng.uni(200.0, 600.0);
    adsr_one(c, m, c.idx % 4 != 0)
}

fn adsr_long(c: &mut Case) -> R {
    let rel = c.rng.chance(0.7);
    let m = if c.idx % 40 == 0 { 60.0 } else { c.t(5.0, 60.0) };
    adsr_one(c, m, rel)
}

pub const C13: Check = Check {
    id: "C13",
    rule: "envelopes with attack, decay and release times of 0 to 5 s (thorough 60 s; minutes family up to 600 s), whole numbers of samples and others, sustain levels incl. minus infinity and positive ones, released at the start, in and at the borders of every stage, in sustain or never, repeatedly; the gain is read with a constant input and compared with the ideal curve within one sample per stage, never rising in release, exactly 0 afterwards; a second envelope with random input must give input times that gain. Every case is non-trivial; distinct by settings. Days: a sustain of 5e8 (thorough 8.6e9) samples, its release and silence.",
    assumptions: &["stage lengths are judged to one sample"],
    exhaustive: false,
    fams: &[
        Fam { name: "short", quick: 144000, thorough: 600000, run: adsr_short },
        Fam { name: "long", quick: 9600, thorough: 12000, run: adsr_long },
        Fam { name: "minutes", quick: 24, thorough: 80, run: adsr_minutes },
        Fam { name: "days", quick: 2, thorough: 4, run: crate::c_long::adsr },
    ],
};

// ---------------------------------------------------------------- C14

/// The third-order filter as a cascade of a first-order section and a
/// state-variable section, which is well-conditioned for all cutoffs.
pub struct Ref3 {
    t: f64,
    k1: f64, // k - 1
    hp: bool,
    y1: f64,
    x1: f64,
    v: f64,
    y: f64,
}

pub fn shape(fc: f64, r: f64) -> (f64, f64) {
    let fc = fc.min(SR / 2.0);
    let r = r.max(0.0).min(1.0);
    (2.0 * PI * fc / SR, 1.0 - 2.0 * (PI * (4.0 - r) / 6.0).cos())
}

impl Ref3 {
    pub fn new(fc: f64, r: f64, hp: bool) -> Self {
        let (t, k) = shape(fc, r);
        Ref3 { t, k1: k - 1.0, hp, y1: 0.0, x1: 0.0, v: 0.0, y: 0.0 }
    }
    pub fn process(&mut self, x: f64) -> f64 {
        let t = self.t;
        let first = if self.hp { (x - self.x1 + self.y1) / (1.0 + t) } else { (t * x + self.y1) / (1.0 + t) };
        self.x1 = x;
        self.y1 = first;
        let v = (self.v + t * (first - self.y)) / (1.0 + self.k1 * t + t * t);
        let y = self.y + t * v;
        self.v = v;
        self.y = y;
        if self.hp {
            first - self.k1 * v - y
        } else {
            y
        }
    }
}

/// The same filter as one recurrence, for changing settings.
struct Direct3 {
    hp: bool,
    x: [f64; 3],
    y: [f64; 3],
    /// Noise added to every output, relative to the terms of the sum.
    noise: f64,
    rng: Rng,
}

impl Direct3 {
    fn process(&mut self, fc: f64, r: f64, x: f64) -> f64 {
        let (t, k) = shape(fc, r);
        let g = t * t * t + k * t * t + k * t + 1.0;
        let b = [(k * t * t + 2.0 * k * t + 3.0) / g, -(k * t + 3.0) / g, 1.0 / g];
        let ff = if self.hp { (x - 3.0 * self.x[0] + 3.0 * self.x[1] - self.x[2]) / g } else { t * t * t / g * x };
        let mut y = ff + b[0] * self.y[0] + b[1] * self.y[1] + b[2] * self.y[2];
        if self.noise > 0.0 {
            let xs = if self.hp { x.abs() + 3.0 * self.x[0].abs() + 3.0 * self.x[1].abs() + self.x[2].abs() } else { x.abs() };
            y += self.noise * self.rng.uni(-1.0, 1.0) * (xs / g + 3.0 * (self.y[0].abs() + self.y[1].abs() + self.y[2].abs()));
        }
        self.x = [x, self.x[0], self.x[1]];
        self.y = [y, self.y[0], self.y[1]];
        y
    }
}

pub trait Cut: Modifier + Clone {
    const HP: bool;
    fn make(fc: f64, r: f64) -> Self;
    fn set_fc(&mut self, fc: f64);
    fn set_r(&mut self, r: f64);
    fn fc(&self) -> f64;
    fn r(&self) -> f64;
}
macro_rules! cut {
    ($t:ty, $hp:expr) => {
        impl Cut for $t {
            const HP: bool = $hp;
            fn make(fc: f64, r: f64) -> Self {
                <$t>::new(fc, r)
            }
            fn set_fc(&mut self, fc: f64) {
                self.set_central_frequency(fc)
            }
            fn set_r(&mut self, r: f64) {
                self.set_resonance(r)
            }
            fn fc(&self) -> f64 {
                self.get_central_frequency()
            }
            fn r(&self) -> f64 {
                self.get_resonance()
            }
        }
    };
}
cut!(LowPass, false);
cut!(HighPass, true);

pub fn cutoff(r: &mut Rng, lo: f64) -> f64 {
    match r.below(7) {
        0 => *r.pick(&[20.0f64, 100.0, 440.0, 1000.0, 10000.0, 23999.0, 24000.0]),
        1 => *r.pick(&[24000.0, 24000.1, 25000.0, 48000.0, 1e6, 1e12]),
        2 => r.uni(10000.0, 24000.0),
        3 => r.log_uni(lo, 30.0),
        _ => r.log_uni(lo, 24000.0),
    }
    .max(lo)
}

pub fn resonance(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => 1.0,
        2 => *r.pick(&[-1.0, -1e-9, 1.0000001, 2.0, 100.0, -100.0]),
        3 => 0.5,
        _ => r.f64(),
    }
}

fn compare(what: &str, got: &[f32], want: &[f64], tol: f64) -> R {
    let pk = want.iter().fold(0.0f64, |m, y| m.max(y.abs()));
    for i in 0..got.len() {
        ensure!(
            (got[i] as f64 - want[i]).abs() <= tol * pk + 1e-37,
            "{}: output {} is {:e} for {:e} (peak {:e})", what, i, got[i], want[i], pk
        );
    }
    Ok(())
}

/// The same with more tolerance where rounding noise is known to grow; tells
/// whether it did.
fn compare_slack(what: &str, got: &[f32], want: &[f64], tol: f64, slack: &[f64]) -> Result<bool, Fail> {
    let pk = want.iter().fold(0.0f64, |m, y| m.max(y.abs()));
    let mut ill = false;
    for i in 0..got.len() {
        ensure!(
            (got[i] as f64 - want[i]).abs() <= tol * pk + slack[i] + 1e-37,
            "{}: output {} is {:e} for {:e} (peak {:e})", what, i, got[i], want[i], pk
        );
        ill = ill || slack[i] > tol * pk;
    }
    Ok(ill)
}

fn settings_ok<F: Cut>(f: &F, fc: f64, r: f64) -> R {
    let (wf, wr) = (fc.min(SR / 2.0), r.max(0.0).min(1.0));
    ensure!(rel(f.fc(), wf, 1e-12), "cutoff {} reported as {}", fc, f.fc());
    ensure!(close(f.r(), wr, 1e-12), "resonance {} reported as {}", r, f.r());
    Ok(())
}

fn cut_response<F: Cut>(c: &mut Case, n: usize) -> R {
    let fc = cutoff(&mut c.rng, 1.0);
    let r = resonance(&mut c.rng);
    let mut f = if c.rng.chance(0.5) {
        F::make(fc, r)
    } else {
        // The same settings by other ways.
        let mut f = F::make(cutoff(&mut c.rng, 1.0), resonance(&mut c.rng));
        for _ in 0..c.rng.below(3) {
            f.set_fc(cutoff(&mut c.rng, 1.0));
            f.set_r(resonance(&mut c.rng));
        }
        if c.rng.chance(0.5) {
            f.set_fc(fc);
            f.set_r(r);
        } else {
            f.set_r(r);
            f.set_fc(fc);
        }
        f
    };
    settings_ok(&f, fc, r)?;
    let x = if c.rng.chance(0.15) { lulls(&mut c.rng, n) } else { signal(&mut c.rng, n) };
    c.desc(format!("{} at {} Hz, resonance {}, {} samples of {}", if F::HP { "high-pass" } else { "low-pass" }, fc, r, n, show(&x)));
    let mut rf = Ref3::new(fc, r, F::HP);
    let want: Vec<f64> = x.iter().map(|x| rf.process(*x as f64)).collect();
    let got: Vec<f32> = x.iter().map(|x| f.process(*x)).collect();
    // Barely damped ringing at the lowest cutoffs drifts in phase with the
    // rounding of the coefficients.
    let (t, _) = shape(fc, r);
    let drift = if fc < 20.0 && r > 0.9 { (3e-16 / (t * t) * n as f64).min(0.3) } else { 0.0 };
    compare("response", &got, &want, 1e-3 + drift)?;
    settings_ok(&f, fc, r)?;
    for y in got.iter().take(64) {
        c.fold_f(*y);
    }
    c.ev("outputs", n as u64);
    c.nontrivial();
    Ok(())
}

fn cut_short<F: Cut>(c: &mut Case) -> R {
    for _ in 0..4 {
        let n = c.rng.log_range(10, 20_000);
        cut_response::<F>(c, n)?;
    }
    Ok(())
}

fn cut_long<F: Cut>(c: &mut Case) -> R {
    let n = c.t(600_000, 6_000_000);
    cut_response::<F>(c, n)
}

/// Constant input: passed by the low-pass, removed by the high-pass.
fn cut_constant<F: Cut>(c: &mut Case) -> R {
    let fc = cutoff(&mut c.rng, 5.0);
    let r = c.rng.uni(0.0, 0.9);
    let a = c.rng.sample();
    let mut f = F::make(fc, r);
    let n = (SR / fc * 60.0) as usize + 2000;
    let mut y = 0.0;
    for _ in 0..n {
        y = f.process(a);
    }
    let want = if F::HP { 0.0 } else { a };
    ensure!(close(y as f64, want as f64, 1e-3 * a.abs() as f64 + 1e-30), "constant {} ends up as {} at {} Hz, resonance {}", a, y, fc, r);
    c.ev("outputs", n as u64);
    c.fold_f(y);
    c.desc(format!("constant {} into {} at {} Hz, resonance {} settles at {}", a, if F::HP { "high-pass" } else { "low-pass" }, fc, r, y));
    c.nontrivial();
    Ok(())
}

/// Settings changed while running.
fn cut_changes<F: Cut>(c: &mut Case) -> R {
    let n = c.t(12_000, 60_000);
    let mut fc = cutoff(&mut c.rng, 20.0);
    let mut r = c.rng.f64() * 0.95;
    let mut f = F::make(fc, r);
    let x = signal(&mut c.rng, n);
    // Changing the settings all the time can excite a filter, so the same
    // with rounding noise shows which digits mean something.
    let refs = |k: u64| Direct3 { hp: F::HP, x: [0.0; 3], y: [0.0; 3], noise: if k == 0 { 0.0 } else { 1e-15 }, rng: Rng::new(k) };
    let mut ds = [refs(0), refs(1), refs(2), refs(3)];
    let every = c.rng.log_range(1, 3000);
    let (mut got, mut want, mut slack, mut off) = (Vec::new(), Vec::new(), Vec::new(), 0.0f64);
    let mut changes = 0;
    let wide = c.rng.chance(0.4);
    for i in 0..n {
        if c.rng.below(every) == 0 {
            if c.rng.chance(0.6) {
                fc = if wide { cutoff(&mut c.rng, 20.0) } else { (fc.min(SR / 2.0) * c.rng.uni(0.8, 1.25)).max(20.0) };
                f.set_fc(fc);
            } else {
                r = if c.rng.chance(0.1) { resonance(&mut c.rng) } else { c.rng.f64() * 0.95 };
                f.set_r(r);
            }
            settings_ok(&f, fc, r)?;
            changes += 1;
        }
        got.push(f.process(x[i]));
        let w: Vec<f64> = ds.iter_mut().map(|d| d.process(fc, r, x[i] as f64)).collect();
        off = w.iter().fold(off, |m, v| m.max((v - w[0]).abs()));
        want.push(w[0]);
        slack.push(30.0 * off);
    }
    if compare_slack(&format!("{} changes", changes), &got, &want, 1e-3, &slack)? {
        c.ev("ill_conditioned", 1);
    }
    for y in got.iter().take(64) {
        c.fold_f(*y);
    }
    c.ev("outputs", n as u64);
    c.ev("changes", changes);
    c.desc(format!("{}, {} changes of cutoff and resonance over {} samples, ending at {} Hz, {}", if F::HP { "high-pass" } else { "low-pass" }, changes, n, fc, r));
    if changes > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub const C14: Check = Check {
    id: "C14",
    rule: "cutoffs from 1 Hz to beyond half the sampling rate, resonances inside, at and beyond [0,1], set at construction or by setters in any order; mixed signals of 10 to 6e5 (thorough 6e6) samples; every output compared (0.1 percent of the peak) with the same filter computed in f64 as a first-order section plus a state-variable section, during changes with the third-order recurrence in f64; constants; reported settings. Non-trivial: outputs compared (in the change family: at least one change); distinct by settings and first outputs. Days: 1.7e7 to 5e8 (thorough 1e9 to 4e9) samples in one go, compared around every power of two and at random places with a fresh one given only the inputs that can still matter.",
    assumptions: &["settings change only from 20 Hz upwards while running"],
    exhaustive: false,
    fams: &[
        Fam { name: "lowpass", quick: 8000, thorough: 29000, run: cut_short::<LowPass> },
        Fam { name: "highpass", quick: 8000, thorough: 29000, run: cut_short::<HighPass> },
        Fam { name: "lowpass_long", quick: 480, thorough: 730, run: cut_long::<LowPass> },
        Fam { name: "highpass_long", quick: 480, thorough: 730, run: cut_long::<HighPass> },
        Fam { name: "lowpass_constant", quick: 480, thorough: 1400, run: cut_constant::<LowPass> },
        Fam { name: "highpass_constant", quick: 480, thorough: 1400, run: cut_constant::<HighPass> },
        Fam { name: "lowpass_changes", quick: 4000, thorough: 14000, run: cut_changes::<LowPass> },
        Fam { name: "highpass_changes", quick: 4000, thorough: 14000, run: cut_changes::<HighPass> },
        Fam { name: "lowpass_days", quick: 4, thorough: 8, run: crate::c_long::lowpass },
        Fam { name: "highpass_days", quick: 4, thorough: 8, run: crate::c_long::highpass },
    ],
};

// ---------------------------------------------------------------- C15

/// First-order low-pass at the upper corner followed by first-order high-pass
/// at the lower, both by bilinear transform.
pub struct RefBp {
    tl: f64,
    th: f64,
    x1: f64,
    l1: f64,
    h1: f64,
}

impl RefBp {
    pub fn new(a: f64, b: f64) -> Self {
        let (lo, hi) = (a.min(b), a.max(b));
        RefBp { tl: (PI * hi / SR).tan(), th: (PI * lo / SR).tan(), x1: 0.0, l1: 0.0, h1: 0.0 }
    }
    pub fn process(&mut self, x: f64) -> f64 {
        let l = (self.tl * (x + self.x1) + (1.0 - self.tl) * self.l1) / (1.0 + self.tl);
        let h = ((l - self.l1) + (1.0 - self.th) * self.h1) / (1.0 + self.th);
        self.x1 = x;
        self.l1 = l;
        self.h1 = h;
        h
    }
}

struct DirectBp {
    x: [f64; 2],
    y: [f64; 2],
    noise: f64,
    rng: Rng,
}

impl DirectBp {
    fn process(&mut self, (lo, hi): (f64, f64), x: f64) -> f64 {
        let (tl, th) = ((PI * hi / SR).tan(), (PI * lo / SR).tan());
        let (bl, bh) = ((1.0 - tl) / (1.0 + tl), (1.0 - th) / (1.0 + th));
        let mut y = tl / (1.0 + tl) / (1.0 + th) * (x - self.x[1]) + (bl + bh) * self.y[0] - bl * bh * self.y[1];
        if self.noise > 0.0 {
            y += self.noise * self.rng.uni(-1.0, 1.0) * (x.abs() + self.x[1].abs() + 2.0 * self.y[0].abs() + self.y[1].abs());
        }
        self.x = [x, self.x[0]];
        self.y = [y, self.y[0]];
        y
    }
}

pub fn corners(r: &mut Rng, lo: f64) -> (f64, f64) {
    loop {
        let mut f = || match r.below(5) {
            0 => *r.pick(&[20.0, 100.0, 440.0, 1000.0, 5000.0, 20000.0, 23999.0]),
            1 => r.uni(10000.0, 23990.0),
            _ => r.log_uni(lo, 23900.0),
        };
        let (a, b) = (f(), f());
        let b = if r.chance(0.2) { a * r.uni(1.0001, 1.05) } else { b };
        let (a, b) = (a.max(lo), b.max(lo));
        if a < 23999.5 && b < 23999.5 && (a - b).abs() > 1e-5 * a {
            return (a, b);
        }
    }
}

fn fq((a, b): (f64, f64)) -> (f64, f64) {
    let f = (a * b).sqrt();
    (f, f / (a - b).abs())
}

fn from_fq(f: f64, q: f64) -> (f64, f64) {
    let bw = f / q;
    let hi = 0.5 * (bw + (bw * bw + 4.0 * f * f).sqrt());
    (f * f / hi, hi)
}

fn bp_getters(bp: &BandPass, (a, b): (f64, f64)) -> R {
    let (a, b) = (a.min(b), a.max(b));
    let (f, q) = fq((a, b));
    let t = 1e-8 * (1.0 + b / (b - a)); // nearly equal corners lose digits
    ensure!(rel(bp.get_central_frequency(), f, 1e-9), "central frequency of ({}, {}) is {} for {}", a, b, bp.get_central_frequency(), f);
    ensure!(rel(bp.get_quality(), q, t), "quality of ({}, {}) is {} for {}", a, b, bp.get_quality(), q);
    let (x, y) = bp.get_corner_frequencies();
    ensure!(rel(x, a, 1e-7) && rel(y, b, 1e-7), "corners of ({}, {}) are ({}, {})", a, b, x, y);
    Ok(())
}

/// A band-pass with these corners, specified in one of the possible ways.
fn make_bp(r: &mut Rng, (a, b): (f64, f64)) -> (BandPass, &'static str) {
    let (f, q) = fq((a, b));
    let any = |r: &mut Rng| {
        let x = corners(r, 1.0);
        if r.chance(0.5) {
            BandPass::from_corners(x)
        } else {
            let (f, q) = fq(x);
            BandPass::new(f, q)
        }
    };
    match r.below(6) {
        0 => (BandPass::from_corners((a, b)), "from_corners"),
        1 => (BandPass::from_corners((b, a)), "from_corners swapped"),
        2 => (BandPass::new(f, q), "new"),
        3 => {
            let mut p = any(r);
            if r.chance(0.5) {
                p.set_corner_frequencies((a, b));
            } else {
                p.set_corner_frequencies((b, a));
            }
            (p, "set_corner_frequencies")
        }
        4 => {
            let mut p = any(r);
            p.set_quality(q);
            p.set_central_frequency(f);
            (p, "set_quality, set_central_frequency")
        }
        _ => {
            let mut p = any(r);
            p.set_central_frequency(f);
            p.set_quality(q);
            (p, "set_central_frequency, set_quality")
        }
    }
}

fn bp_response(c: &mut Case, n: usize) -> R {
    let k = corners(&mut c.rng, 1.0);
    let (mut bp, how) = make_bp(&mut c.rng, k);
    bp_getters(&bp, k)?;
    let x = if c.rng.chance(0.15) { lulls(&mut c.rng, n) } else { signal(&mut c.rng, n) };
    c.desc(format!("corners {:?} by {}, {} samples of {}", k, how, n, show(&x)));
    let mut rf = RefBp::new(k.0, k.1);
    let want: Vec<f64> = x.iter().map(|x| rf.process(*x as f64)).collect();
    let got: Vec<f32> = x.iter().map(|x| bp.process(*x)).collect();
    compare("response", &got, &want, 3e-5)?;
    bp_getters(&bp, k)?;
    for y in got.iter().take(64) {
        c.fold_f(*y);
    }
    c.ev("outputs", n as u64);
    c.nontrivial();
    Ok(())
}

fn bp_short(c: &mut Case) -> R {
    for _ in 0..6 {
        let n = c.rng.log_range(10, 10_000);
        bp_response(c, n)?;
    }
    Ok(())
}

fn bp_long(c: &mut Case) -> R {
    let n = c.t(500_000, 5_000_000);
    bp_response(c, n)
}

fn bp_constant(c: &mut Case) -> R {
    let k = corners(&mut c.rng, 2.0);
    let mut bp = make_bp(&mut c.rng, k).0;
    let a = c.rng.sample();
    let slow = k.0.min(k.1).min(SR / 2.0 - k.0.max(k.1));
    let n = (SR / slow * 10.0) as usize + 1000;
    let mut y = 0.0;
    let mut pk = 0.0f32;
    for _ in 0..n {
        y = bp.process(a);
        pk = pk.max(y.abs());
    }
    ensure!((y.abs() as f64) <= 1e-4 * pk as f64 + 1e-12 * a.abs() as f64, "constant {} ends up as {} with corners {:?} (peak {})", a, y, k, pk);
    c.ev("outputs", n as u64);
    c.fold_f(pk);
    c.desc(format!("constant {} through corners {:?} peaks at {} and settles at {}", a, k, pk, y));
    c.nontrivial();
    Ok(())
}

fn bp_changes(c: &mut Case) -> R {
    let n = c.t(8_000, 60_000);
    let mut k = corners(&mut c.rng, 5.0);
    k = (k.0.min(k.1), k.0.max(k.1));
    let mut bp = make_bp(&mut c.rng, k).0;
    let x = signal(&mut c.rng, n);
    let refs = |k: u64| DirectBp { x: [0.0; 2], y: [0.0; 2], noise: if k == 0 { 0.0 } else { 1e-13 }, rng: Rng::new(k) };
    let mut ds = [refs(0), refs(1), refs(2), refs(3)];
    let every = c.rng.log_range(1, 2000);
    let (mut got, mut want, mut slack, mut off) = (Vec::new(), Vec::new(), Vec::new(), 0.0f64);
    let mut changes = 0;
    for i in 0..n {
        if c.rng.below(every) == 0 {
            let (f, q) = fq(k);
            match c.rng.below(3) {
                0 => {
                    let m = corners(&mut c.rng, 5.0);
                    bp.set_corner_frequencies(m);
                    k = (m.0.min(m.1), m.0.max(m.1));
                    changes += 1;
                    bp_getters(&bp, k)?;
                }
                1 => {
                    let f2 = f * c.rng.log_uni(0.2, 5.0);
                    let m = from_fq(f2, q);
                    if m.0 > 5.0 && m.1 < 23990.0 {
                        bp.set_central_frequency(f2);
                        k = m;
                        changes += 1;
                        bp_getters(&bp, k)?;
                    }
                }
                _ => {
                    let q2 = (q * c.rng.log_uni(0.1, 10.0)).min(1e4);
                    let m = from_fq(f, q2);
                    if m.0 > 5.0 && m.1 < 23990.0 {
                        bp.set_quality(q2);
                        k = m;
                        changes += 1;
                        bp_getters(&bp, k)?;
                    }
                }
            }
        }
        got.push(bp.process(x[i]));
        let w: Vec<f64> = ds.iter_mut().map(|d| d.process(k, x[i] as f64)).collect();
        off = w.iter().fold(off, |m, v| m.max((v - w[0]).abs()));
        want.push(w[0]);
        slack.push(30.0 * off);
    }
    if compare_slack(&format!("{} changes", changes), &got, &want, 1e-4, &slack)? {
        c.ev("ill_conditioned", 1);
    }
    for y in got.iter().take(64) {
        c.fold_f(*y);
    }
    c.ev("outputs", n as u64);
    c.ev("changes", changes);
    c.desc(format!("{} changes of corners, central frequency and quality over {} samples, ending at {:?}", changes, n, k));
    if changes > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub const C15: Check = Check {
    id: "C15",
    rule: "corner pairs from 1 Hz to just below half the sampling rate (wide, nearly equal, in either order), specified in all six ways; mixed signals of 10 to 5e5 (thorough 5e6) samples; every output compared (3e-5 of the peak) with the two first-order sections computed in f64, during changes with the second-order recurrence in f64; constants; reported settings. Non-trivial: outputs compared (in the change family: at least one change); distinct by settings and first outputs. Days: 1.7e7 to 5e8 (thorough 1e9 to 4e9) samples in one go, compared around every power of two and at random places with a fresh one given only the inputs that can still matter.",
    assumptions: &["the corners differ"],
    exhaustive: false,
    fams: &[
        Fam { name: "response", quick: 15000, thorough: 63000, run: bp_short },
        Fam { name: "long", quick: 720, thorough: 1100, run: bp_long },
        Fam { name: "constant", quick: 1800, thorough: 3900, run: bp_constant },
        Fam { name: "changes", quick: 12000, thorough: 31000, run: bp_changes },
        Fam { name: "days", quick: 4, thorough: 8, run: crate::c_long::bandpass },
    ],
};

// ---------------------------------------------------------------- C16

fn delay_one(c: &mut Case, max: f64, extra: usize) -> R {
    let d = duration(&mut c.rng, max);
    let exact = d.as_nanos() as f64 * 1e-9 * SR;
    let mut m = Delay::new(d);
    let rep = m.get_delay();
    let n = (rep.as_nanos() as f64 * 1e-9 * SR).round();
    ensure!((n - exact).abs() <= 0.5 + 1e-6, "delay of {:?} ({} samples) reported as {:?}", d, exact, rep);
    ensure!((rep.as_nanos() as f64 - n / SR * 1e9).abs() <= 2.0 + n * 1e-9, "reported delay {:?} is not {} samples", rep, n);
    let n = n as usize;
    let len = n + extra;
    let x: Vec<f32> = if c.rng.chance(0.3) {
        (0..len).map(|_| if c.rng.chance(0.05) { *c.rng.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN]) } else { wild_f32(&mut c.rng) }).collect()
    } else if c.rng.chance(0.3) {
        lulls(&mut c.rng, len)
    } else {
        (0..len).map(|i| (i + 1) as f32 * if i % 3 == 0 { -1.0 } else { 1.0 }).collect()
    };
    for i in 0..len {
        if i % 4096 == 4095 && c.late() {
            c.ev("cut_short", 1);
            break;
        }
        let y = m.process(x[i]);
        let w = if i < n { 0.0 } else { x[i - n] };
        ensure!(same(y, w), "delay of {} samples: output {} is {:e} for {:e}", n, i, y, w);
    }
    ensure!(m.get_delay() == rep, "reported delay changed from {:?} to {:?}", rep, m.get_delay());
    c.fold(n as u64);
    c.fold(len as u64);
    c.fold_f(x[len - 1]);
    c.ev("outputs", len as u64);
    c.ev("delayed_samples", extra as u64);
    c.desc(format!("delay {:?} = {} samples, {} inputs", d, n, len));
    c.nontrivial();
    Ok(())
}

fn delay_short(c: &mut Case) -> R {
    delay_one_zero(c)?;
    for _ in 0..8 {
        let e = c.rng.log_range(2, 5000);
        delay_one(c, 0.1, e)?;
    }
    Ok(())
}

fn delay_one_zero(c: &mut Case) -> R {
    let mut m = Delay::new(Duration::from_nanos(c.rng.below(10_000) as u64));
    ensure!(m.get_delay() == Duration::default(), "zero delay reported as {:?}", m.get_delay());
    for i in 0..50 {
        let x = wild_f32(&mut c.rng);
        let y = m.process(x);
        ensure!(same(x, y), "zero delay: output {} is {:e} for {:e}", i, y, x);
    }
    c.ev("outputs", 50);
    Ok(())
}

fn delay_long(c: &mut Case) -> R {
    let e = c.t(500_000, 5_000_000);
    let max = if c.idx % 40 == 0 { c.t(90.0, 600.0) } else { 20.0 };
    delay_one(c, max, e)
}

pub const C16: Check = Check {
    id: "C16",
    rule: "durations of 0 to 0.1 s (long family 20 s): whole samples, half-way cases, powers of two, nanoseconds; inputs are numbered, arbitrary bit patterns (infinities and NaN included) or silent for long, up to 5e5 (thorough 5e6) beyond the delay; the output must be exactly silence for the rounded length and then exactly the input. Every case is non-trivial; distinct by length and input. Days: 1.7e7 to 5e8 (thorough 1e9 to 4e9) samples in one go, compared around every power of two and at random places with a fresh one given only the inputs that can still matter.",
    assumptions: &["durations half-way between two samples may round either way"],
    exhaustive: false,
    fams: &[
        Fam { name: "delay", quick: 96000, thorough: 600000, run: delay_short },
        Fam { name: "long", quick: 3840, thorough: 6000, run: delay_long },
        Fam { name: "days", quick: 4, thorough: 8, run: crate::c_long::delay },
    ],
};

// ---------------------------------------------------------------- C17

pub fn feedback(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => *r.pick(&[0.0, 0.5, -0.5, 0.25, 0.9, 0.99, 0.999, -0.999]),
        1 => *r.pick(&[1.0, -1.0]),
        2 => r.uni(-0.2, 0.2),
        _ => r.uni(-1.0, 1.0),
    }
}

fn echo_run(c: &mut Case, max: f64, beyond: usize) -> R {
    let d = duration(&mut c.rng, max);
    let mut g = feedback(&mut c.rng);
    let exact = d.as_nanos() as f64 * 1e-9 * SR;
    let mut cand: Vec<usize> = [exact - 1e-6, exact + 1e-6].iter().flat_map(|e| vec![e.max(0.0).floor() as usize, e.max(0.0).round() as usize]).map(|n| n.max(1)).collect();
    cand.sort();
    cand.dedup();
    let n = cand[cand.len() - 1] * c.rng.range(1, 5) + beyond;
    if c.rng.chance(0.05) && n / cand[0] < 50 {
        g = c.rng.uni(-2.0, 2.0);
    }
    let gf = g as f32 as f64;
    let x = if c.rng.chance(0.3) {
        let mut v = vec![0.0; n];
        v[c.rng.below(n.min(50))] = 1.0;
        v
    } else if c.rng.chance(0.2) {
        lulls(&mut c.rng, n)
    } else {
        signal(&mut c.rng, n)
    };
    let mut m = Echo::new(d, g);
    let mut y: Vec<f32> = Vec::with_capacity(n);
    let mut ok: Vec<Option<String>> = vec![None; cand.len()];
    for i in 0..n {
        if i % 4096 == 4095 && c.late() {
            c.ev("cut_short", 1);
            break;
        }
        let o = m.process(x[i]);
        for (k, p) in cand.iter().enumerate() {
            if ok[k].is_some() {
                continue;
            }
            let fb = if i >= *p { gf * y[i - p] as f64 } else { 0.0 };
            let want = x[i] as f64 + fb;
            if (o as f64 - want).abs() > 4e-7 * (x[i].abs() as f64 + fb.abs()) + 1e-37 {
                ok[k] = Some(format!("period {}: output {} is {:e} for {:e}", p, i, o, want));
            }
        }
        ensure!(ok.iter().any(|o| o.is_none()), "echo of {:?} ({} samples) with gain {}: {:?}", d, exact, g, ok);
        y.push(o);
        if i < 64 {
            c.fold_f(o);
        }
    }
    if g.abs() < 1.0 {
        let lim = peak(&x) / (1.0 - gf.abs()) * 1.001 + 1e-30;
        ensure!(peak(&y) <= lim, "echo with gain {} reaches {} from inputs up to {}", g, peak(&y), peak(&x));
        if g.abs() < 0.95 && cand[0] < 5000 {
            // The sound dies away after the input has stopped.
            let rounds = if g == 0.0 { 1 } else { ((1e-5f64).ln() / g.abs().ln()).ceil() as usize + 1 };
            for _ in 0..rounds * cand[cand.len() - 1] {
                m.process(0.0);
            }
            let mut last = 0.0f64;
            for _ in 0..2 * cand[cand.len() - 1] {
                last = last.max(m.process(0.0).abs() as f64);
            }
            ensure!(last <= 2e-5 * peak(&y) + 1e-30, "echo with gain {} still at {:e} of {:e} after {} rounds of silence", g, last, peak(&y), rounds);
            c.ev("decays", 1);
        }
    }
    c.ev("outputs", n as u64);
    c.desc(format!("echo {:?} ({} samples), gain {}, {} inputs {}", d, exact, g, n, show(&x)));
    c.nontrivial();
    Ok(())
}

fn echo_short(c: &mut Case) -> R {
    for _ in 0..6 {
        let b = c.rng.log_range(2, 3000);
        let m = *c.rng.pick(&[0.0002, 0.005, 0.05]);
        echo_run(c, m, b)?;
    }
    Ok(())
}

fn echo_long(c: &mut Case) -> R {
    let b = c.t(400_000, 4_000_000);
    let max = if c.idx % 40 == 0 { 60.0 } else { 4.0 };
    echo_run(c, max, b)
}

pub const C17: Check = Check {
    id: "C17",
    rule: "durations of 0 to 0.05 s (long family 4 s) incl. zero and fractions of a sample, gains in [-1,1] and a few beyond, impulses and mixed signals of up to five periods plus up to 4e5 (thorough 4e6) samples; every output is compared with input plus gain times the output one period earlier, for the period rounded down or to nearest (one and the same throughout a run); bound and decay for gains below one. Every case is non-trivial; distinct by settings and outputs. Days: 1.7e7 to 5e8 (thorough 1e9 to 4e9) samples in one go, compared around every power of two and at random places with a fresh one given only the inputs that can still matter.",
    assumptions: &[],
    exhaustive: false,
    fams: &[
        Fam { name: "echo", quick: 60000, thorough: 480000, run: echo_short },
        Fam { name: "long", quick: 2880, thorough: 6000, run: echo_long },
        Fam { name: "days", quick: 4, thorough: 8, run: crate::c_long::echo },
    ],
};

// ---------------------------------------------------------------- C18

pub fn follow_freqs(r: &mut Rng, hi: f64) -> (f64, f64) {
    let mut f = || match r.below(4) {
        0 => r.pick(&[1.0f64, 10.0, 20.0, 100.0, 1000.0, 12000.0, 20000.0, 23900.0]).min(hi),
        1 => r.uni(1000.0, hi),
        _ => r.log_uni(1.0, hi),
    };
    (f(), f())
}

fn envelope_run(c: &mut Case, n: usize, quarter: bool) -> R {
    let hi = if quarter { SR / 4.0 } else { 23950.0 };
    let (lower, upper) = follow_freqs(&mut c.rng, hi);
    let (lf, uf) = (lower as f32, upper as f32);
    let mut e = bae_rs::modifiers::Envelope::new(lf, uf);
    let mut e2 = bae_rs::modifiers::Envelope::new(lf, uf);
    let co = |f: f32| {
        let t = (PI * f as f64 / SR).tan();
        (t / (1.0 + t), (1.0 - t) / (1.0 + t))
    };
    let (up, down) = (co(uf), co(lf));
    let mut x = if c.rng.chance(0.15) { lulls(&mut c.rng, n) } else { signal(&mut c.rng, n) };
    c.desc(format!("lower {} upper {} Hz, {} samples of {}", lf, uf, n, show(&x)));
    let ties = if c.rng.chance(0.3) { 0.1 } else { 0.0 };
    let mut tied = 0;
    let (mut x1, mut y1) = (0.0f64, 0.0f64);
    let mut max = 0.0f64;
    let mut branches = [0u64; 2];
    // A second opinion over the whole run, in f64, once the branches agree.
    for i in 0..n {
        if ties > 0.0 && c.rng.chance(ties) {
            // Exactly the previous output doesn't exceed it.
            x[i] = y1 as f32 * if c.rng.chance(0.5) { -1.0 } else { 1.0 };
            tied += 1;
        }
        let a = x[i].abs() as f64;
        let y = e.process(x[i]) as f64;
        let w = |(p, q): (f64, f64)| p * (a + x1) + q * y1;
        let tol = 3e-6 * (a + x1 + y1.abs()) + 1e-37;
        let near = a != y1 && (a - y1).abs() <= 1e-5 * (a + y1.abs());
        let rising = a > y1;
        branches[rising as usize] += 1;
        let first = if rising { w(up) } else { w(down) };
        let other = if rising { w(down) } else { w(up) };
        ensure!(close(y, first, tol) || (near && close(y, other, tol)), "output {} is {:e} for {:e} (input {:e}, previous output {:e})", i, y, first, x[i], y1);
        // Only magnitudes count.
        let y2 = e2.process(if c.rng.chance(0.5) { -x[i] } else { x[i] }) as f64;
        ensure!(close(y, y2, 1e-6 * y.abs()), "output {} is {:e}, with other signs {:e}", i, y, y2);
        max = max.max(a);
        if quarter {
            ensure!(y >= -1e-3 * max - 1e-37 && y <= max * 1.002 + 1e-37, "output {} is {:e} with inputs up to {:e}", i, y, max);
        }
        x1 = a;
        y1 = y;
        if i < 64 {
            c.fold_f(y as f32);
        }
    }
    c.ev("outputs", n as u64);
    c.ev("rising", branches[1]);
    c.ev("ties", tied);
    c.ev("falling", branches[0]);
    if branches[0] > 0 && branches[1] > 0 {
        c.nontrivial();
    }
    Ok(())
}

fn envelope_quarter(c: &mut Case) -> R {
    for _ in 0..3 {
        let n = c.rng.log_range(20, 20_000);
        envelope_run(c, n, true)?;
    }
    Ok(())
}

fn envelope_all(c: &mut Case) -> R {
    for _ in 0..3 {
        let n = c.rng.log_range(20, 20_000);
        envelope_run(c, n, false)?;
    }
    Ok(())
}

fn envelope_long(c: &mut Case) -> R {
    let n = c.t(400_000, 4_000_000);
    let q = c.rng.chance(0.5);
    envelope_run(c, n, q)
}

/// Whole run against a reference in f64: errors too small for one step show.
fn envelope_steps(c: &mut Case) -> R {
    let (lower, upper) = follow_freqs(&mut c.rng, 12000.0);
    let (lf, uf) = (lower as f32, upper as f32);
    let mut e = bae_rs::modifiers::Envelope::new(lf, uf);
    let (a, b) = (c.rng.uni(0.2, 1.0) as f32, c.rng.uni(0.0, 0.1) as f32);
    let pole = |f: f32| {
        let t = (PI * f as f64 / SR).tan();
        (1.0 - t) / (1.0 + t)
    };
    let n = (SR / uf as f64 * 4.0) as usize + 50;
    let m = (SR / lf as f64 * 4.0) as usize + 50;
    // Rising to a with the upper frequency: 1-(1-u)*p^i after the first.
    let mut y = 0.0;
    let (mut lo, mut hi) = (0.0, 0.0);
    let tu = (PI * uf as f64 / SR).tan();
    let first = tu / (1.0 + tu) * a as f64;
    for i in 0..n {
        y = e.process(a) as f64;
        let w = a as f64 - (a as f64 - first) * pole(uf).powi(i as i32);
        let tol = 3e-3 * a as f64;
        ensure!(close(y, w, tol), "rising to {}: output {} is {} for {} (lower {}, upper {})", a, i, y, w, lf, uf);
        if i == n / 2 {
            lo = y;
        }
        hi = y;
    }
    ensure!(hi >= lo * 0.99999, "falls on a constant input");
    ensure!(close(y, a as f64, 2e-3 * a as f64), "constant {} settles at {} (lower {}, upper {})", a, y, lf, uf);
    let top = y;
    let td = (PI * lf as f64 / SR).tan();
    let first = td / (1.0 + td) * (a as f64 + b as f64) + pole(lf) * top;
    // The first step may still rise, when the lower frequency is high.
    for i in 0..m {
        y = e.process(b) as f64;
        let w = b as f64 + (first - b as f64) * pole(lf).powi(i as i32);
        ensure!(close(y, w, 3e-3 * a as f64), "falling to {}: output {} is {} for {} (lower {}, upper {})", b, i, y, w, lf, uf);
    }
    ensure!(close(y, b as f64, 3e-3 * a as f64), "constant {} settles at {} (lower {}, upper {})", b, y, lf, uf);
    c.fold_f(y as f32);
    c.ev("outputs", (n + m) as u64);
    c.desc(format!("lower {} upper {} Hz: step to {}, then to {}", lf, uf, a, b));
    c.nontrivial();
    Ok(())
}

pub const C18: Check = Check {
    id: "C18",
    rule: "lower and upper frequencies from 1 Hz to just below half the sampling rate in any relation, mixed signals of 20 to 4e5 (thorough 4e6) samples; each output compared with the smoothing equation applied to the previous observed output in f64 (3e-6), the branch by magnitude; the same signal with random signs; bounds for frequencies up to a quarter of the rate; steps against the closed form over whole runs. Non-trivial: both branches taken (steps: always); distinct by settings and outputs. Days: 1.7e7 to 5e8 (thorough 1e9 to 4e9) samples in one go, compared around every power of two and at random places with a fresh one given only the inputs that can still matter.",
    assumptions: &["either frequency may be used when magnitude and previous output agree to 1e-5"],
    exhaustive: false,
    fams: &[
        Fam { name: "quarter", quick: 10000, thorough: 120000, run: envelope_quarter },
        Fam { name: "all", quick: 10000, thorough: 120000, run: envelope_all },
        Fam { name: "long", quick: 800, thorough: 2400, run: envelope_long },
        Fam { name: "steps", quick: 13250, thorough: 120000, run: envelope_steps },
        Fam { name: "days", quick: 4, thorough: 8, run: crate::c_long::envelope },
    ],
};

// ---------------------------------------------------------------- C19

pub fn taps(r: &mut Rng, scale: f64, deep: usize) -> std::collections::VecDeque<(usize, f32)> {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(2, 4),
        _ => r.log_range(1, 40),
    };
    let style = r.below(4);
    let mut v: Vec<(usize, f32)> = (0..n)
        .map(|i| {
            let d = match style {
                0 => i,
                1 => r.below(n + 3),
                2 => r.log_range(0, deep),
                _ => r.log_range(0, 20),
            };
            let k = match r.below(16) {
                0 | 1 => 0.0,
                2 => -0.0,
                3 => *r.pick(&[1.0, -1.0, 0.5, 1e-30, -1e-42]),
                _ => r.uni(-1.0, 1.0),
            };
            (d, (k * scale) as f32)
        })
        .collect();
    if r.chance(0.3) {
        r.shuffle(&mut v);
    } else if r.chance(0.3) {
        v.reverse();
    }
    v.into_iter().collect()
}

fn generic_run(c: &mut Case, n: usize, deep: usize) -> R {
    let zeros = taps(&mut c.rng, 1.0, deep);
    let mut poles = taps(&mut c.rng, 1.0, deep);
    // Keep it stable.
    let s: f32 = poles.iter().map(|p| p.1.abs()).sum();
    if s > 0.98 {
        let k = c.rng.uni(0.1, 0.98) as f32 / s;
        for p in &mut poles {
            p.1 *= k;
        }
    }
    let mut x = if c.rng.chance(0.15) { lulls(&mut c.rng, n) } else { signal(&mut c.rng, n) };
    if c.rng.chance(0.3) {
        // Any level will do.
        let k = c.rng.log_uni(1e-20, 1e25) as f32;
        x.iter_mut().for_each(|x| *x *= k);
    }
    c.desc(format!("zeros {:?} poles {:?}, {} samples", zeros.iter().take(8).collect::<Vec<_>>(), poles.iter().take(8).collect::<Vec<_>>(), n));
    let mut f = Generic::new(zeros.clone(), poles.clone());
    let mut y: Vec<f32> = Vec::with_capacity(n);
    for i in 0..n {
        let o = f.process(x[i]);
        let (mut want, mut mag) = (0.0f64, 0.0f64);
        for (d, k) in &zeros {
            if i >= *d {
                let v = x[i - d] as f64 * *k as f64;
                want += v;
                mag += v.abs();
            }
        }
        for (d, k) in &poles {
            if i >= *d + 1 {
                let v = y[i - 1 - d] as f64 * *k as f64;
                want += v;
                mag += v.abs();
            }
        }
        let terms = 2.0 + (zeros.len() + poles.len()) as f64;
        ensure!(close(o as f64, want, 1.5e-7 * terms * mag + 1e-38), "zeros {:?} poles {:?}: output {} is {:e} for {:e}", zeros, poles, i, o, want);
        y.push(o);
        if i < 32 {
            c.fold_f(o);
        }
    }
    c.ev("outputs", n as u64);
    c.nontrivial();
    Ok(())
}

fn generic_short(c: &mut Case) -> R {
    for _ in 0..6 {
        let n = c.rng.log_range(5, 800);
        generic_run(c, n, 60)?;
    }
    Ok(())
}

fn generic_long(c: &mut Case) -> R {
    let n = c.t(200_000, 2_000_000);
    let deep = n / 2;
    generic_run(c, n, deep)
}

fn generic_deep(c: &mut Case) -> R {
    let n = c.t(12_000, 60_000);
    generic_run(c, n, 6000)
}

/// Lists of thousands of taps, as a convolution has them.
fn generic_wide(c: &mut Case) -> R {
    let (n, nz, np) = (c.rng.range(1500, 4000), c.rng.log_range(500, 12_000), c.rng.log_range(1, 12_000));
    let deep = c.rng.range(1, 6000);
    let style = c.rng.below(3);
    let list = |n: usize, c: &mut Case, scale: f64| -> std::collections::VecDeque<(usize, f32)> {
        let mut v: Vec<(usize, f32)> = (0..n)
            .map(|i| (if style == 0 { i } else { c.rng.below(deep) }, (c.rng.uni(-1.0, 1.0) * scale) as f32))
            .collect();
        if style == 2 {
            c.rng.shuffle(&mut v);
        }
        v.into_iter().collect()
    };
    let zeros = list(nz, c, 1.0);
    let mut poles = list(np, c, 1.0);
    // Keep it stable.
    let s: f32 = poles.iter().map(|p| p.1.abs()).sum();
    let k = c.rng.uni(0.1, 0.97) as f32 / s.max(0.5);
    for p in &mut poles {
        p.1 *= k;
    }
    c.desc(format!("{} zeros and {} poles (delays {}), {} samples", nz, np, if style == 0 { "in order".to_string() } else { format!("below {}", deep) }, n));
    let x = if c.rng.chance(0.3) { (0..n).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect() } else { signal(&mut c.rng, n) };
    let mut f = Generic::new(zeros.clone(), poles.clone());
    // The roundings of so many terms mostly cancel, in whatever order they are
    // added: the slack grows with the root of their number.
    let mut y: Vec<f32> = Vec::with_capacity(n);
    for i in 0..n {
        let o = f.process(x[i]);
        let (mut want, mut mag) = (0.0f64, 0.0f64);
        let mut terms = 4.0f64;
        for (d, k) in &zeros {
            if i >= *d {
                let v = x[i - d] as f64 * *k as f64;
                want += v;
                mag += v.abs();
                terms += if v != 0.0 { 1.0 } else { 0.0 };
            }
        }
        for (d, k) in &poles {
            if i >= *d + 1 {
                let v = y[i - 1 - d] as f64 * *k as f64;
                want += v;
                mag += v.abs();
                terms += if v != 0.0 { 1.0 } else { 0.0 };
            }
        }
        ensure!(close(o as f64, want, 1.5e-7 * terms.sqrt() * mag + 1e-38), "{} zeros and {} poles: output {} is {:e} for {:e}", nz, np, i, o, want);
        y.push(o);
        if i < 32 {
            c.fold_f(o);
        }
    }
    c.ev("outputs", n as u64);
    c.ev("taps", (nz + np) as u64);
    c.nontrivial();
    Ok(())
}

fn gain_pass(c: &mut Case) -> R {
    let mut p = Passthrough::new();
    let mut p2 = Passthrough::default();
    let a = wild_f32(&mut c.rng);
    let mut g = Gain::new(a);
    ensure!(same(g.a, a), "gain {:e} reads back as {:e}", a, g.a);
    let mut cur = a;
    for i in 0..5000 {
        let x = match c.rng.below(50) {
            0 => f32::INFINITY,
            1 => f32::NEG_INFINITY,
            2 => f32::NAN,
            _ => wild_f32(&mut c.rng),
        };
        let (y, y2) = (p.process(x), p2.process(x));
        ensure!(same(y, x) && same(y2, x) && (x.is_nan() || y.to_bits() == x.to_bits()), "pass-through output {} is {:e} for {:e}", i, y, x);
        if c.rng.chance(0.05) {
            cur = wild_f32(&mut c.rng);
            g.a = cur;
            c.ev("gain_changes", 1);
        }
        let y = g.process(x);
        ensure!(same(y, x * cur), "gain {:e}: output {} is {:e} for {:e}", cur, i, y, x * cur);
        c.fold_f(y);
    }
    ensure!(Gain::default().process(1.0) == 0.0, "default gain is not zero");
    c.ev("outputs", 15_000);
    c.desc(format!("gain from {:e} with changes, pass-through, 5000 arbitrary samples", a));
    c.nontrivial();
    Ok(())
}

pub const C19: Check = Check {
    id: "C19",
    rule: "tap lists of 0 to 40 entries (in order, shuffled, reversed, with gaps and repeats, delays up to 6000), stable poles, mixed signals of 5 to 800 (deep family 1.2e4, thorough 6e4; long family 2e5 with delays up to 1e5, thorough ten times that) samples; each output compared with the difference equation over the inputs and the outputs observed so far, to the rounding of the sum; wide family: 500 to 12000 zeros and 1 to 12000 poles over 1500 to 4000 samples; gain with changes and pass-through exactly, over arbitrary bit patterns. Every case is non-trivial; distinct by taps and outputs. Days: 1.7e7 to 5e8 (thorough 1e9 to 4e9) samples in one go, compared around every power of two and at random places with a fresh one given only the inputs that can still matter.",
    assumptions: &[],
    exhaustive: false,
    fams: &[
        Fam { name: "generic", quick: 96000, thorough: 600000, run: generic_short },
        Fam { name: "deep", quick: 9600, thorough: 30000, run: generic_deep },
        Fam { name: "wide", quick: 240, thorough: 2400, run: generic_wide },
        Fam { name: "long", quick: 768, thorough: 960, run: generic_long },
        Fam { name: "gain_passthrough", quick: 9600, thorough: 60000, run: gain_pass },
        Fam { name: "days", quick: 6, thorough: 9, run: crate::c_long::plain },
    ],
};
