//! C08, C09 oscillators, C10 noise, C11, C12 resampling.

use crate::ensure;
use crate::rng::*;
use crate::rt::*;
use crate::util::*;
use bae_rs::generators::*;
use bae_rs::utils::MonoResampler;
use bae_rs::*;

// ------------------------------------------------------- oscillators

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Sine,
    Square,
    Saw,
    Tri,
}

pub trait Osc: Generator + FreqMod {
    const KIND: Kind;
}
impl Osc for Sine {
    const KIND: Kind = Kind::Sine;
}
impl Osc for Square {
    const KIND: Kind = Kind::Square;
}
impl Osc for Sawtooth {
    const KIND: Kind = Kind::Saw;
}
impl Osc for Triangle {
    const KIND: Kind = Kind::Tri;
}

/// A positive double as m * 2^-e.
fn parts(f: f64) -> (i128, u32) {
    let b = f.to_bits();
    let ex = ((b >> 52) & 0x7ff) as i32;
    let m = ((b & ((1 << 52) - 1)) | (1 << 52)) as i128;
    let e = 1075 - ex;
    // Keep it small: strip trailing zeros.
    let z = m.trailing_zeros() as i32;
    let (m, e) = (m >> z, e - z);
    if e >= 0 {
        (m, e as u32)
    } else {
        (m << (-e), 0)
    }
}

/// The exact phase in [0,1) after n samples at frequency f.
pub fn phase(n: u64, f: f64) -> f64 {
    let (m, e) = parts(f);
    let cycle = (SAMPLE_RATE as i128) << e;
    let p = (n as i128 * m) % cycle;
    p as f64 / cycle as f64
}

/// Whether half a period is a whole number of samples, and their number a power
/// of two: then neither counting samples nor adding up parts of a cycle rounds.
fn whole(f: f64) -> bool {
    let (m, e) = parts(f);
    let cycle = (SAMPLE_RATE as i128) << e;
    cycle % (2 * m) == 0 && (cycle / (2 * m)).count_ones() == 1
}

fn wrapd(x: f64) -> f64 {
    x - x.round()
}

/// Compares a sample with the ideal waveform at a phase known up to tau.
pub fn judge(kind: Kind, y: f32, p: f64, tau: f64, exact_edges: bool) -> Result<(), String> {
    let yv = y as f64;
    if !(y.abs() <= 1.0) {
        return Err(format!("{:?} outside [-1,1]: {}", kind, y));
    }
    let ok = match kind {
        Kind::Sine => close(yv, (2.0 * std::f64::consts::PI * p).sin(), 2e-6 + 7.0 * tau),
        Kind::Square => {
            if exact_edges {
                y == if p < 0.5 { 1.0 } else { -1.0 }
            } else if wrapd(p).abs() <= tau || wrapd(p - 0.5).abs() <= tau {
                y.abs() == 1.0
            } else {
                y == if p < 0.5 { 1.0 } else { -1.0 }
            }
        }
        Kind::Saw => {
            let want = if p < 0.5 { 2.0 * p } else { 2.0 * p - 2.0 };
            close(yv, want, 2e-7 + 3.0 * tau) || (wrapd(p - 0.5).abs() <= tau && close(yv.abs(), 1.0, 2e-7 + 3.0 * tau))
        }
        Kind::Tri => {
            let want = if p < 0.25 {
                4.0 * p
            } else if p < 0.75 {
                2.0 - 4.0 * p
            } else {
                4.0 * p - 4.0
            };
            close(yv, want, 3e-7 + 5.0 * tau)
        }
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{:?} is {} at phase {:.12}", kind, y, p))
    }
}

pub fn tau(n: u64) -> f64 {
    1e-11 + n as f64 * 3e-15
}

fn steady<O: Osc>(c: &mut Case, f: f64, n: u64) -> R {
    let mut o = if c.rng.chance(0.7) {
        O::new(f)
    } else {
        // Set before it starts.
        let mut o = O::new(freq(&mut c.rng));
        o.set_frequency(f);
        c.ev("set_before_start", 1);
        o
    };
    let exact = whole(f);
    let (m, e) = parts(f);
    let cycle = (SAMPLE_RATE as i128) << e;
    let icycle = 1.0 / cycle as f64;
    let mut p: i128 = 0; // exact phase, in parts of a cycle
    let mut next_q = 0;
    for i in 0..n {
        if i == next_q {
            ensure!(rel(o.get_frequency(), f, 1e-9), "{:?} reports {} for {} Hz after {} samples", O::KIND, o.get_frequency(), f, i);
            next_q = i + 1 + (i / 7);
        }
        let y = o.process();
        if let Err(msg) = judge(O::KIND, y, p as f64 * icycle, tau(i), exact) {
            return Err(Fail::new(format!("{} Hz, sample {}: {}", f, i, msg)));
        }
        p += m;
        if p >= cycle {
            p %= cycle;
        }
        if i < 64 {
            c.fold_f(y);
        }
    }
    c.ev("samples", n);
    c.ev("cycles", (n as f64 * f / SR) as u64);
    Ok(())
}

fn osc_short<O: Osc>(c: &mut Case) -> R {
    for k in 0..8 {
        let f = freq(&mut c.rng);
        let n = c.rng.log_range(100, 40_000) as u64;
        if k == 0 {
            c.desc(format!("{:?} at {} Hz for {} samples, and 7 more", O::KIND, f, n));
        }
        steady::<O>(c, f, n)?;
    }
    c.nontrivial();
    Ok(())
}

fn osc_long<O: Osc>(c: &mut Case) -> R {
    let f = freq(&mut c.rng).max(0.01);
    // Beyond what single precision and 24 bits can count, now and then.
    let n = if c.idx % 80 == 0 { 18_000_000 } else { c.t(1_000_000, 40_000_000) };
    c.desc(format!("{:?} at {} Hz for {} samples", O::KIND, f, n));
    steady::<O>(c, f, n)?;
    c.nontrivial();
    Ok(())
}

/// Every whole frequency in turn, over a couple of cycles.
fn osc_grid<O: Osc>(c: &mut Case) -> R {
    let step = c.t(20, 20);
    let mut f = 1 + c.idx as usize;
    while f <= 24000 {
        let cyc = if f < 20 { 1.1 } else { 12.3 };
        steady::<O>(c, f as f64, (SR / f as f64 * cyc) as u64 + 5)?;
        f += step;
    }
    c.desc(format!("{:?} at whole frequencies {}, {}, ... up to 24000 Hz", O::KIND, 1 + c.idx, 1 + c.idx as usize + step));
    c.nontrivial();
    Ok(())
}

fn zero_gen(c: &mut Case) -> R {
    let n = c.t(100_000, 1_000_000);
    let mut z = Zero::new();
    let mut d = Zero::default();
    for i in 0..n {
        ensure!(z.process() == 0.0 && d.process() == 0.0, "the silent generator yields a sound at {}", i);
    }
    c.ev("samples", 2 * n);
    c.desc(format!("silent generator for {} samples", n));
    c.nontrivial();
    Ok(())
}

pub const C08: Check = Check {
    id: "C08",
    rule: "frequencies from 1e-6 Hz to half the sampling rate (divisors of the rate, powers of two, notes, all whole frequencies, near the limit, random), runs of 100 to 1e6, some of 1.8e7 samples (thorough: 4e7); every sample compared with the ideal waveform at the exact phase (128-bit integer arithmetic), within 2e-6 plus the rounding of a double phase accumulator (3e-15 of a cycle per sample); a jump may fall on either side only within that; periods that are whole numbers of samples exactly. Every case is non-trivial; distinct by frequency, length and first samples. Days families: 2.7e8 (thorough 8.6e9) samples, exact phase around every power of two and at random places.",
    assumptions: &[],
    exhaustive: false,
    fams: &[
        Fam { name: "sine", quick: 3000, thorough: 7700, run: osc_short::<Sine> },
        Fam { name: "square", quick: 3000, thorough: 7700, run: osc_short::<Square> },
        Fam { name: "sawtooth", quick: 3000, thorough: 7700, run: osc_short::<Sawtooth> },
        Fam { name: "triangle", quick: 3000, thorough: 7700, run: osc_short::<Triangle> },
        Fam { name: "sine_long", quick: 240, thorough: 310, run: osc_long::<Sine> },
        Fam { name: "square_long", quick: 240, thorough: 310, run: osc_long::<Square> },
        Fam { name: "sawtooth_long", quick: 240, thorough: 310, run: osc_long::<Sawtooth> },
        Fam { name: "triangle_long", quick: 240, thorough: 310, run: osc_long::<Triangle> },
        Fam { name: "sine_grid", quick: 20, thorough: 20, run: osc_grid::<Sine> },
        Fam { name: "square_grid", quick: 20, thorough: 20, run: osc_grid::<Square> },
        Fam { name: "sawtooth_grid", quick: 20, thorough: 20, run: osc_grid::<Sawtooth> },
        Fam { name: "triangle_grid", quick: 20, thorough: 20, run: osc_grid::<Triangle> },
        Fam { name: "zero", quick: 4, thorough: 4, run: zero_gen },
        Fam { name: "sine_days", quick: 2, thorough: 3, run: crate::c_long::osc::<Sine> },
        Fam { name: "square_days", quick: 2, thorough: 3, run: crate::c_long::osc::<Square> },
        Fam { name: "sawtooth_days", quick: 2, thorough: 3, run: crate::c_long::osc::<Sawtooth> },
        Fam { name: "triangle_days", quick: 2, thorough: 3, run: crate::c_long::osc::<Triangle> },
    ],
};

// ---------------------------------------------------------------- C09

fn retune<O: Osc>(c: &mut Case) -> R {
    let n = c.t(30_000, 300_000) as u64;
    let mut f = freq(&mut c.rng);
    let mut o = O::new(f);
    let f0 = f;
    let mut base = 0.0; // phase at the start of the segment
    let mut k = 0u64; // samples within the segment
    let mut set = 0u64;
    let mut total = 0u64;
    let every = c.rng.log_range(1, 3000);
    let style = c.rng.below(5);
    let mut hist = String::new();
    while total < n {
        // Run a stretch.
        let len = match c.rng.below(4) {
            0 => 1,
            1 => c.rng.below(4),
            _ => c.rng.log_range(1, every.max(2)),
        };
        for _ in 0..len {
            let p = base + phase(k, f);
            let p = p - p.floor();
            let y = o.process();
            if let Err(msg) = judge(O::KIND, y, p, tau(total) + set as f64 * 3e-15, false) {
                return Err(Fail::new(format!("sample {} after {} retunings ({}), now {} Hz: {}", total, set, hist, f, msg)));
            }
            k += 1;
            total += 1;
            if total < 32 {
                c.fold_f(y);
            }
        }
        // Retune, sometimes repeatedly or to the same frequency.
        let times = if c.rng.chance(0.2) { c.rng.range(2, 4) } else { 1 };
        for _ in 0..times {
            base += phase(k, f);
            base -= base.floor();
            k = 0;
            f = match style {
                0 => f, // the same again
                1 => (f * c.rng.uni(0.9, 1.1)).max(1e-3).min(SR / 2.0),
                2 => {
                    if c.rng.chance(0.3) {
                        f
                    } else {
                        freq(&mut c.rng)
                    }
                }
                3 => if c.rng.chance(0.5) { c.rng.log_uni(0.01, 5.0) } else { c.rng.uni(5000.0, 24000.0) },
                _ => freq(&mut c.rng),
            };
            o.set_frequency(f);
            set += 1;
            if hist.len() < 200 {
                hist.push_str(&format!("{}@{} ", f, total));
            }
            ensure!(rel(o.get_frequency(), f, 1e-9), "reports {} after setting {} Hz at sample {}", o.get_frequency(), f, total);
        }
    }
    ensure!(rel(o.get_frequency(), f, 1e-9), "reports {} for {} Hz", o.get_frequency(), f);
    c.ev("samples", total);
    c.ev("retunings", set);
    c.desc(format!("{:?} from {} Hz, {} retunings over {} samples: {}", O::KIND, f0, set, total, hist));
    if set > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Long runs between settings, compared around every setting and now and then
/// elsewhere.
fn retune_far<O: Osc>(c: &mut Case) -> R {
    let max = c.t(8_000_000, 60_000_000);
    let mut f = freq(&mut c.rng);
    let mut o = O::new(f);
    let mut base = 0.0;
    let (mut total, mut set, mut seen) = (0u64, 0u64, 0u64);
    let mut hist = format!("{} Hz", f);
    let runs = c.rng.range(3, 7);
    for r in 0..runs {
        // Now and then next to nothing happens between two settings.
        let len = match c.rng.below(10) {
            0 | 1 | 2 if r > 0 => c.rng.below(3),
            // Beyond what single precision counts.
            3 => c.rng.range(17_000_000, 20_000_000),
            _ => c.rng.log_range(200_000, max),
        } as u64;
        if r > 0 && c.late() {
            break;
        }
        let every = c.rng.range(500, 1500) as u64;
        for k in 0..len {
            let y = o.process();
            if k < 400 || k + 400 > len || k % every == 0 {
                let p = base + phase(k, f);
                let p = p - p.floor();
                if let Err(msg) = judge(O::KIND, y, p, tau(total + k) + set as f64 * 3e-15, false) {
                    return Err(Fail::new(format!("sample {} after {} retunings ({}), now {} Hz: {}", total + k, set, hist, f, msg)));
                }
                seen += 1;
                if k < 8 {
                    c.fold_f(y);
                }
            }
        }
        total += len;
        base += phase(len, f);
        base -= base.floor();
        f = match c.rng.below(4) {
            0 => f,
            1 => (f * c.rng.uni(0.99, 1.01)).min(SR / 2.0),
            _ => freq(&mut c.rng),
        };
        o.set_frequency(f);
        set += 1;
        hist.push_str(&format!(" {}@{}", f, total));
        ensure!(rel(o.get_frequency(), f, 1e-9), "reports {} after setting {} Hz at sample {}", o.get_frequency(), f, total);
    }
    for k in 0..1000 {
        let p = base + phase(k, f);
        let p = p - p.floor();
        if let Err(msg) = judge(O::KIND, o.process(), p, tau(total + k) + set as f64 * 3e-15, false) {
            return Err(Fail::new(format!("sample {} after {} retunings ({}), now {} Hz: {}", total + k, set, hist, f, msg)));
        }
    }
    c.ev("far_samples", total + 1000);
    c.ev("far_compared", seen + 1000);
    c.ev("retunings", set);
    c.desc(format!("{:?} far: {}", O::KIND, hist));
    c.nontrivial();
    Ok(())
}

pub const C09: Check = Check {
    id: "C09",
    rule: "random histories of running 0 to 3000 samples and setting frequencies (the same again, nearby, jumps between very low and very high, several in a row) on one oscillator; the oracle accumulates the exact phase of every stretch and compares each sample with the ideal waveform there, and the frequency reported after each setting; far families: 2e5 to 2e7 (thorough 6e7) samples between settings, compared around every setting and every 500 to 1500 samples. Non-trivial: at least one retuning; distinct by history.",
    assumptions: &["a jump of the waveform may fall on either side within the rounding of a double phase accumulator"],
    exhaustive: false,
    fams: &[
        Fam { name: "sine", quick: 7500, thorough: 12000, run: retune::<Sine> },
        Fam { name: "square", quick: 7500, thorough: 12000, run: retune::<Square> },
        Fam { name: "sawtooth", quick: 7500, thorough: 12000, run: retune::<Sawtooth> },
        Fam { name: "triangle", quick: 7500, thorough: 12000, run: retune::<Triangle> },
        Fam { name: "sine_far", quick: 12, thorough: 40, run: retune_far::<Sine> },
        Fam { name: "square_far", quick: 12, thorough: 40, run: retune_far::<Square> },
        Fam { name: "sawtooth_far", quick: 12, thorough: 40, run: retune_far::<Sawtooth> },
        Fam { name: "triangle_far", quick: 12, thorough: 40, run: retune_far::<Triangle> },
    ],
};

// ---------------------------------------------------------------- C10

fn take(g: &mut Noise, n: usize) -> Vec<f32> {
    (0..n).map(|_| g.process()).collect()
}

/// Standard score limit: one false alarm in more than 1e14 tests.
const Z: f64 = 8.0;

fn white(v: &[f32]) -> Result<u64, Fail> {
    let n = v.len() as f64;
    let mut tests = 0;
    for (i, x) in v.iter().enumerate() {
        ensure!(*x >= -1.0 && *x <= 1.0, "sample {} is {}", i, x);
    }
    let mean = v.iter().map(|x| *x as f64).sum::<f64>() / n;
    let z = mean / (1.0 / 3.0 / n).sqrt();
    ensure!(z.abs() < Z, "mean of {} samples is {} ({:.1} standard deviations)", n, mean, z);
    let sq = v.iter().map(|x| (*x as f64).powi(2)).sum::<f64>() / n;
    let z = (sq - 1.0 / 3.0) / (4.0 / 45.0 / n).sqrt();
    ensure!(z.abs() < Z, "power of {} samples is {} ({:.1} standard deviations off 1/3)", n, sq, z);
    // Extremes are reached.
    let (lo, hi) = v.iter().fold((1.0f32, -1.0f32), |(a, b), x| (a.min(*x), b.max(*x)));
    let gap = 80.0 / n;
    ensure!((lo as f64) < -1.0 + gap && (hi as f64) > 1.0 - gap, "{} samples only span {} to {}", n, lo, hi);
    // Uniformity, single samples and neighbouring pairs.
    for (bins, pairs) in [(256usize, false), (1000, false), (24, true)] {
        let cells = if pairs { bins * bins } else { bins };
        let mut h = vec![0f64; cells];
        let q = |x: f32| (((x as f64 + 1.0) * 0.5 * bins as f64) as usize).min(bins - 1);
        let mut m = 0.0;
        if pairs {
            let mut i = 0;
            while i + 1 < v.len() {
                h[q(v[i]) * bins + q(v[i + 1])] += 1.0;
                m += 1.0;
                i += 2;
            }
        } else {
            for x in v {
                h[q(*x)] += 1.0;
                m += 1.0;
            }
        }
        let e = m / cells as f64;
        let chi: f64 = h.iter().map(|o| (o - e).powi(2) / e).sum();
        let k = cells as f64 - 1.0;
        // Wilson-Hilferty.
        let z = ((chi / k).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * k))) / (2.0 / (9.0 * k)).sqrt();
        ensure!(z.abs() < Z, "{} samples in {} cells are not uniform ({:.1} standard deviations)", n, cells, z);
        tests += 1;
    }
    // The lowest bits vary too: 4096 levels within the samples' resolution.
    let mut h = vec![0f64; 64];
    for x in v {
        h[(((*x as f64 + 1.0) * 262144.0).floor() as i64 & 63) as usize] += 1.0;
    }
    let e = n / 64.0;
    let chi: f64 = h.iter().map(|o| (o - e).powi(2) / e).sum();
    let z = ((chi / 63.0).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * 63.0))) / (2.0 / (9.0f64 * 63.0)).sqrt();
    ensure!(z.abs() < Z, "fine structure of {} samples is not uniform ({:.1} standard deviations)", n, z);
    Ok(tests + 5)
}

fn correlation(a: &[f32], b: &[f32]) -> f64 {
    let n = a.len().min(b.len());
    let s: f64 = (0..n).map(|i| a[i] as f64 * b[i] as f64).sum();
    s / (n as f64).sqrt() * 3.0
}

fn loudness_correlation(a: &[f32], b: &[f32]) -> f64 {
    let n = a.len().min(b.len());
    let s: f64 = (0..n).map(|i| (a[i].abs() as f64 - 0.5) * (b[i].abs() as f64 - 0.5)).sum();
    s / (n as f64).sqrt() * 12.0
}

fn noise_white(c: &mut Case) -> R {
    let n = c.t(600_000, 8_000_000);
    let mut g = if c.rng.chance(0.5) { Noise::new() } else { Noise::default() };
    let skip = match c.idx {
        // Beyond what a single-precision count, and (thorough) 32 bits hold.
        3 => (1 << 24) + c.rng.below(1 << 24),
        5 if c.thorough => (1 << 32) + 1000,
        _ => c.rng.below(1000),
    };
    for _ in 0..skip {
        let y = g.process();
        if !(y >= -1.0 && y <= 1.0) {
            return Err(Fail::new(format!("a sample is {}", y)));
        }
    }
    let v = take(&mut g, n);
    let mut tests = white(&v)?;
    let mut lags: Vec<usize> = (1..=64).collect();
    lags.extend_from_slice(&[96, 100, 128, 240, 256, 441, 480, 512, 1000, 1024, 2048, 4096, 4800, 8192, 10000, 16384, 32768, 44100, 48000, 65536, 100000, 131072, 262144]);
    for _ in 0..40 {
        lags.push(c.rng.range(1, n / 2));
    }
    for l in lags {
        let z = correlation(&v[..n - l], &v[l..]);
        ensure!(z.abs() < Z, "correlation at lag {} ({:.1} standard deviations)", l, z);
        let z = loudness_correlation(&v[..n - l], &v[l..]);
        ensure!(z.abs() < Z, "correlation of magnitudes at lag {} ({:.1} standard deviations)", l, z);
        tests += 2;
    }
    // No repetition: no run of 6 samples occurs twice.
    let mut seen = std::collections::HashSet::with_capacity(n);
    for i in 0..n - 6 {
        let h = v[i..i + 6].iter().fold(1u64, |h, x| fnv(h, x.to_bits() as u64));
        ensure!(seen.insert(h), "the six samples at {} occurred before", i);
    }
    c.ev("samples", n as u64);
    c.ev("statistical_tests", tests);
    c.fold_f(v[0]);
    c.fold_f(v[n - 1]);
    c.desc(format!("{} samples after skipping {}: {}", n, skip, show(&v)));
    c.nontrivial();
    Ok(())
}

fn noise_independent(c: &mut Case) -> R {
    let n = c.t(60_000, 600_000);
    // Streams from one thread, drawn one after the other or interleaved, from
    // clones taken at different moments, and from other threads.
    let mut a = Noise::new();
    let mut b = Noise::new();
    let mut fresh_clone = a.clone();
    take(&mut a, 100);
    let mut later_clone = a.clone();
    let mut d = Noise::default();
    let mut st: Vec<(String, Vec<f32>)> = Vec::new();
    let mut cc = later_clone.clone();
    let mut vs = vec![Vec::new(); 6];
    let interleave = c.rng.chance(0.5);
    {
        let mut gs: Vec<&mut Noise> = vec![&mut a, &mut b, &mut fresh_clone, &mut later_clone, &mut d, &mut cc];
        if interleave {
            for _ in 0..n {
                for (g, v) in gs.iter_mut().zip(vs.iter_mut()) {
                    v.push(g.process());
                }
            }
        } else {
            for (g, v) in gs.iter_mut().zip(vs.iter_mut()) {
                *v = take(g, n);
            }
        }
    }
    for (i, v) in vs.into_iter().enumerate() {
        st.push((["first", "second", "clone", "later clone", "default", "clone of a clone"][i].into(), v));
    }
    let hs: Vec<_> = (0..3).map(|_| spawn(move || (take(&mut Noise::new(), n), take(&mut Noise::new().clone(), n)))).collect();
    for (i, h) in hs.into_iter().enumerate() {
        let (p, q) = join(h)?;
        st.push((format!("thread {}", i), p));
        st.push((format!("thread {} clone", i), q));
    }
    let mut tests = 0;
    for i in 0..st.len() {
        tests += white(&st[i].1)?;
        for j in 0..i {
            for lag in [0usize, 1, 2, 3, 99, 100, 101, 480] {
                for (p, q) in [(i, j), (j, i)] {
                    let z = correlation(&st[p].1[..n - lag], &st[q].1[lag..]);
                    ensure!(z.abs() < Z, "{} and {} are correlated at lag {} ({:.1} standard deviations)", st[p].0, st[q].0, lag, z);
                    tests += 1;
                }
            }
            let eq = (0..n).filter(|k| st[i].1[*k] == st[j].1[*k]).count();
            ensure!(eq < 20, "{} and {} agree in {} of {} samples", st[i].0, st[j].0, eq, n);
        }
    }
    // No run of one stream occurs in another, at any offset.
    let mut seen = std::collections::HashMap::new();
    for (i, (name, v)) in st.iter().enumerate() {
        for k in 0..n - 6 {
            let h = v[k..k + 6].iter().fold(1u64, |h, x| fnv(h, x.to_bits() as u64));
            if let Some(o) = seen.insert(h, i) {
                return Err(Fail::new(format!("six samples of {} at {} also occur in {}", name, k, st[o as usize].0)));
            }
        }
    }
    c.ev("streams", st.len() as u64);
    c.ev("samples", (st.len() * n) as u64);
    c.ev("statistical_tests", tests);
    c.fold_f(st[0].1[0]);
    c.fold_f(st[6].1[0]);
    c.desc(format!("{} streams of {} samples ({}), on 4 threads", st.len(), n, if interleave { "interleaved" } else { "one after the other" }));
    c.nontrivial();
    Ok(())
}

/// The first samples of many generators.
fn noise_ensemble(c: &mut Case) -> R {
    let n = c.t(60_000, 600_000);
    let depth = 6;
    let how = c.idx % 4;
    let mut vs = vec![Vec::with_capacity(n); depth];
    let parent = Noise::new();
    let mut last = Noise::new();
    for _ in 0..n {
        let mut g = match how {
            0 => Noise::new(),
            1 => Noise::default(),
            2 => parent.clone(),
            _ => {
                last = last.clone();
                last.clone()
            }
        };
        for v in vs.iter_mut() {
            v.push(g.process());
        }
    }
    let mut tests = 0;
    for (k, v) in vs.iter().enumerate() {
        tests += white(v).map_err(|f| Fail::new(format!("sample {} of each of {} generators: {}", k, n, f.msg)))?;
        for lag in 1..8 {
            let z = correlation(&v[..n - lag], &v[lag..]);
            ensure!(z.abs() < Z, "sample {} of generators made {} apart: correlated ({:.1} standard deviations)", k, lag, z);
            tests += 1;
        }
        for (j, w) in vs.iter().enumerate().take(k) {
            let z = correlation(w, v);
            ensure!(z.abs() < Z, "samples {} and {} of {} generators are correlated ({:.1} standard deviations)", j, k, n, z);
            tests += 1;
        }
    }
    c.ev("streams", n as u64);
    c.ev("samples", (n * depth) as u64);
    c.ev("statistical_tests", tests);
    c.fold_f(vs[0][0]);
    c.desc(format!("the first {} samples of {} generators ({})", depth, n, ["new", "default", "clones of one", "clones of clones"][how as usize]));
    c.nontrivial();
    Ok(())
}

/// Rare events in very long runs: values close to the ends and to zero, hardly
/// any change, nearly the largest change, long runs of one sign. Counted by
/// orders of magnitude and compared with what independent samples give.
fn noise_marathon(c: &mut Case) -> R {
    let n: u64 = c.t(300_000_000, 4_000_000_000);
    let mut g = Noise::new();
    // By the exponent of a number in [0,1].
    let e = |x: f32| (127 - (x.to_bits() >> 23) as usize).min(127);
    let (mut top, mut bottom, mut mid) = ([0u64; 128], [0u64; 128], [0u64; 128]);
    let (mut small, mut large) = ([[0u64; 128]; 2], [[0u64; 128]; 2]);
    let mut runs = [0u64; 64];
    let (mut run, mut sign) = (0usize, false);
    let mut equal = [0u64; 2];
    let (mut p, mut pp) = (g.process(), g.process());
    let mut steps = 0u64;
    while steps < n {
        let y = g.process();
        steps += 1;
        if !(y >= -1.0 && y <= 1.0) {
            return Err(Fail::new(format!("a sample is {}", y)));
        }
        top[e((1.0 - y) * 0.5)] += 1;
        bottom[e((1.0 + y) * 0.5)] += 1;
        mid[e(y.abs())] += 1;
        let (a, b) = ((y - pp).abs() * 0.5, (y - p).abs() * 0.5);
        small[0][e(a)] += 1;
        small[1][e(b)] += 1;
        large[0][e(1.0 - a)] += 1;
        large[1][e(1.0 - b)] += 1;
        equal[0] += (a == 0.0) as u64;
        equal[1] += (b == 0.0) as u64;
        if (y < 0.0) == sign {
            run += 1;
        } else {
            runs[run.min(63)] += 1;
            run = 1;
            sign = y < 0.0;
        }
        p = pp;
        pp = y;
    }
    let mut tests = 0;
    // Chernoff's bound on the chance of as many or as few.
    let unlikely = |got: f64, want: f64| {
        let d = if got == 0.0 { want } else { got * (got / want).ln() - got + want };
        d > 34.0
    };
    let mut judge = |what: &str, k: usize, got: u64, prob: f64, n: f64, grid: f64| -> R {
        tests += 1;
        let (lo, hi) = (n * prob * (1.0 - grid), n * prob * (1.0 + grid));
        let got = got as f64;
        let bad = got < lo && unlikely(got, lo) || got > hi && unlikely(got, hi);
        ensure!(!bad, "{} samples: {} of order 2^-{} occur {} times instead of {:.1}", n, what, k, got, n * prob);
        Ok(())
    };
    let m = n as f64;
    let upto = |h: &[u64; 128], k: usize| h[k..].iter().sum::<u64>();
    for k in 1..19 {
        // Exponent k: in [2^-k, 2^-k+1). The samples lie on a grid.
        let (lo, hi) = (2f64.powi(-(k as i32)), 2f64.powi(1 - k as i32));
        let grid = 2f64.powi(k as i32 - 22);
        let u = |t: f64| t;
        let near = |t: f64| 2.0 * t - t * t;
        let far = |t: f64| t * t;
        let mut all = |what: &str, h: &[u64; 128], cdf: &dyn Fn(f64) -> f64| -> R {
            judge(what, k, h[k], cdf(hi) - cdf(lo), m, grid)?;
            judge(&format!("{}, at most those", what), k, upto(h, k), cdf(hi), m, grid)
        };
        all("distances from the top", &top, &u)?;
        all("distances from the bottom", &bottom, &u)?;
        all("magnitudes", &mid, &u)?;
        all("steps over two samples", &small[0], &near)?;
        all("steps from one sample to the next", &small[1], &near)?;
        all("distances of steps over two samples from the largest", &large[0], &far)?;
        all("distances of steps from the largest", &large[1], &far)?;
    }
    let total: u64 = runs[1..].iter().sum();
    for k in 1..40 {
        judge("runs of one sign", k, runs[k], 2f64.powi(-(k as i32)), total as f64, 1e-6)?;
    }
    for l in 0..2 {
        let lim = m * 2f64.powi(-23);
        ensure!((equal[l] as f64) < lim || !unlikely(equal[l] as f64, lim), "{} of {} samples equal the one {} before", equal[l], n, 2 - l);
    }
    c.ev("samples", n);
    c.ev("statistical_tests", tests + 2);
    c.fold_f(p);
    c.fold_f(pp);
    c.desc(format!("{} samples in a row, {} and {} equal to the one and two before", n, equal[0], equal[1]));
    c.nontrivial();
    Ok(())
}

pub const C10: Check = Check {
    id: "C10",
    rule: "runs of 6e5 (thorough 8e6) samples tested for range, mean, power, uniformity (256, 1000 cells, pairs in 24x24, fine structure), auto-correlation of samples and magnitudes at over 120 lags and repeated runs of six samples, at the start and after up to 2^25 (thorough 2^32) samples; the first six samples of 60000 (6e5) generators, new, default, cloned and cloned again, tested across the generators; eight (32) runs of 3e8 (4e9) samples in which samples near the ends and near zero, near repetitions, nearly largest steps and long runs of one sign are counted by orders of magnitude; twelve streams (generators, clones, clones of clones, three threads) tested likewise and pairwise for correlation, equality and shared runs. All limits are at 8 standard deviations. Every case is non-trivial; distinct by the samples drawn.",
    assumptions: &["the generator draws its randomness from the operating system, so the samples differ from run to run whatever VERIF_SEED is"],
    exhaustive: false,
    fams: &[
        Fam { name: "white", quick: 73, thorough: 140, run: noise_white },
        Fam { name: "independent", quick: 49, thorough: 140, run: noise_independent },
        Fam { name: "ensemble", quick: 16, thorough: 80, run: noise_ensemble },
        Fam { name: "marathon", quick: 8, thorough: 32, run: noise_marathon },
    ],
};

// ------------------------------------------------------- resampling

fn track(r: &mut Rng, n: usize) -> Vec<f32> {
    if r.chance(0.1) {
        // Any level.
        let a = r.log_uni(1e-20, 1e25) as f32;
        return (0..n).map(|_| a * r.sample()).collect();
    }
    match r.below(8) {
        6 => lulls(r, n),
        0 => (0..n).map(|i| ((i % 17) as f32) / 16.0).collect(),
        1 => (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect(),
        2 => (0..n).map(|i| i as f32).collect(),
        3 => signal(r, n),
        4 => (0..n).map(|_| r.uni(-1000.0, 1000.0) as f32).collect(),
        _ => (0..n).map(|_| r.sample()).collect(),
    }
}

fn mono(t: &[f32]) -> MonoTrackT {
    t.iter().map(|s| Mono { mono: *s }).collect()
}

fn source_rate(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 48000.0,
        1 => *r.pick(&[8000.0, 11025.0, 16000.0, 22050.0, 44100.0, 88200.0, 96000.0, 192000.0]),
        2 => 48000.0 * 2f64.powi(r.range(0, 10) as i32 - 5),
        3 => r.range(1, 200_000) as f64,
        4 => {
            let least = if r.chance(0.2) { 1e-9 } else { 1.0 };
            r.log_uni(least, 1e7)
        },
        5 => 48000.0 * r.range(1, 40) as f64,
        _ => r.uni(1000.0, 100_000.0),
    }
}

fn speed(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => 0.5,
        2 => 2.0,
        3 => r.log_uni(1e-4, 1e4),
        4 => 2f64.powi(r.range(0, 12) as i32 - 6),
        5 => r.range(1, 50) as f64,
        _ => r.uni(0.1, 4.0),
    }
}

/// Whether steps of this size add up without rounding.
fn dyadic(x: f64) -> bool {
    let y = x * 1048576.0;
    x == 0.0 || (y.fract() == 0.0 && y < 1e12)
}

/// Range of the linear interpolation of `at` over [a,b].
fn span(at: &dyn Fn(i64) -> f64, a: f64, b: f64) -> (f64, f64) {
    let v = |p: f64| {
        let k = p.floor();
        let (x, y) = (at(k as i64), at(k as i64 + 1));
        x + (p - k) * (y - x)
    };
    let (p, q) = (v(a), v(b));
    let (mut lo, mut hi) = (p.min(q), p.max(q));
    let mut k = a.ceil();
    while k <= b {
        let x = at(k as i64);
        lo = lo.min(x);
        hi = hi.max(x);
        k += 1.0;
    }
    (lo, hi)
}

/// A playback position and how far rounding may have moved it.
struct Pos {
    pos: f64,
    err: f64,
    exact: bool,
}

impl Pos {
    fn new() -> Self {
        Pos { pos: 0.0, err: 0.0, exact: true }
    }
    /// One step; `wrap` bounds the position an implementation works with.
    fn step(&mut self, d: f64, wrap: f64) {
        self.exact = self.exact && dyadic(d) && self.pos < 1e8;
        self.pos += d;
        if !self.exact {
            let m = self.pos.abs().min(wrap) + 1.0;
            // Rounding of this sum there and here, and of the step itself.
            self.err += 2.3e-16 * (m + self.pos.abs()) + 6e-16 * d;
        }
    }
    fn tol(&self) -> f64 {
        if self.exact {
            0.0
        } else {
            self.err * 2.0 + 1e-12
        }
    }
}

/// Largest of the samples that may take part in the interpolation.
fn around(at: &dyn Fn(i64) -> f64, p: &Pos) -> f64 {
    let e = p.tol().min(2.0);
    let (a, b) = ((p.pos - e).floor().max(0.0) as i64, (p.pos + e).floor() as i64 + 1);
    (a..=b).fold(0.0, |m, k| m.max(at(k).abs()))
}

enum Player {
    R(MonoResampler),
    W(MonoWav),
}

impl Player {
    fn r(&mut self) -> &mut MonoResampler {
        match self {
            Player::R(r) => r,
            Player::W(w) => w.get_mut(),
        }
    }
    fn next(&mut self) -> f32 {
        match self {
            Player::R(r) => r.process(),
            Player::W(w) => w.process(),
        }
    }
    fn speed(&self) -> f64 {
        match self {
            Player::R(r) => r.get_playback_speed(),
            Player::W(w) => w.get().get_playback_speed(),
        }
    }
}

fn play(c: &mut Case, t: &[f32], rate: f64, steps: usize, changes: f64) -> R {
    let len = t.len() as f64;
    let mut p = match c.rng.below(3) {
        0 => Player::W(MonoWav::from_track(rate, mono(t))),
        _ => {
            // Equal loop points mean no loop; 0 and 0 is the documented way.
            Player::R(MonoResampler::new(mono(t), rate, 0, 0))
        }
    };
    ensure!(p.speed() == 1.0, "the initial speed is {}", p.speed());
    let mut sp = 1.0;
    if c.rng.chance(0.5) {
        sp = speed(&mut c.rng);
        p.r().set_playback_speed(sp);
    }
    let mut pos = Pos::new();
    let at = |k: i64| -> f64 {
        if k < 0 {
            t[0] as f64
        } else if (k as usize) < t.len() {
            t[k as usize] as f64
        } else {
            t[t.len() - 1] as f64
        }
    };
    let mut ended = 0;
    let mut set = 0;
    for n in 0..steps {
        let y = p.next();
        let e = pos.tol();
        let may_play = pos.pos - e < len;
        let may_end = pos.pos + e >= len;
        let mut ok = may_end && y == 0.0;
        let mut want = (0.0, 0.0);
        if may_play && !ok {
            want = span(&at, (pos.pos - e).max(0.0), (pos.pos + e).min(len.max(1.0) - 1e-9).max((pos.pos - e).max(0.0)));
            let scale = around(&at, &pos).max(want.0.abs()).max(want.1.abs());
            let tol = 4e-7 * scale + 1e-30;
            ok = y as f64 >= want.0 - tol && y as f64 <= want.1 + tol;
        }
        if !ok {
            return Err(Fail::new(format!("output {} is {} for {:?} at position {} of {} (rate {}, speed {}, {} changes)", n, y, want, pos.pos, len, rate, sp, set)));
        }
        if n < 64 {
            c.fold_f(y);
        }
        if pos.pos - e >= len {
            ended += 1;
            if ended > 400 {
                break;
            }
        } else if pos.pos > 1.0 {
            c.nontrivial();
        }
        pos.step(rate / SR * sp, len + rate / SR * sp);
        if changes > 0.0 && c.rng.chance(changes) {
            sp = speed(&mut c.rng);
            p.r().set_playback_speed(sp);
            set += 1;
            ensure!(p.speed() == sp, "reports speed {} for {}", p.speed(), sp);
        }
        c.ev("outputs", 1);
    }
    ensure!(p.speed() == sp, "reports speed {} for {}", p.speed(), sp);
    c.ev("outputs_past_end", ended);
    c.ev("speed_changes", set);
    Ok(())
}

fn resample(c: &mut Case) -> R {
    for k in 0..6 {
        let n = match c.rng.below(6) {
            0 => c.rng.range(1, 5),
            _ => c.rng.log_range(1, 5000),
        };
        let t = track(&mut c.rng, n);
        let rate = source_rate(&mut c.rng);
        let ch = *c.rng.pick(&[0.0, 0.0, 0.01, 0.2]);
        if k == 0 {
            c.desc(format!("track of {} samples at {} Hz, speed changes {} per output: {}; and 5 more", n, rate, ch, show(&t)));
        }
        play(c, &t, rate, 20_000, ch)?;
    }
    Ok(())
}

fn resample_long(c: &mut Case) -> R {
    let n = c.t(600_000, 12_000_000);
    let n = c.rng.range(n / 2, n);
    let t = if c.rng.chance(0.5) { (0..n).map(|_| c.rng.sample()).collect() } else { track(&mut c.rng, n) };
    let rate = match c.rng.below(3) {
        0 => 44100.0,
        1 => c.rng.uni(20_000.0, 200_000.0),
        _ => *c.rng.pick(&[48000.0, 96000.0, 88200.0, 22050.0, 11025.0]),
    };
    c.desc(format!("track of {} samples at {} Hz", n, rate));
    play(c, &t, rate, c.t(1_500_000, 30_000_000), 0.0)
}

fn resample_empty(c: &mut Case) -> R {
    for _ in 0..20 {
        let rate = source_rate(&mut c.rng);
        let mut p = if c.rng.chance(0.5) {
            Player::R(MonoResampler::new(Vec::new(), rate, 0, 0))
        } else {
            Player::W(MonoWav::from_track(rate, Vec::new()))
        };
        let sp = speed(&mut c.rng);
        p.r().set_playback_speed(sp);
        for n in 0..2000 {
            ensure!(p.next() == 0.0, "output {} of an empty track is not zero", n);
            c.ev("outputs_past_end", 1);
        }
        c.fold(rate.to_bits());
    }
    c.desc("empty tracks".into());
    c.nontrivial();
    Ok(())
}

pub const C11: Check = Check {
    id: "C11",
    rule: "resamplers and wave players over tracks of 0 to 5000 (long family: up to 6e5, thorough 1.2e7) samples of every character, source rates from 1e-9 Hz to 10 MHz, speeds from 0 to 1e4, with and without speed changes; every output compared with linear interpolation at the exact position, widened by the accumulated rounding of a double position (nothing when the steps are dyadic), the end included, and hundreds of outputs past the end. Non-trivial: playback got beyond the first source sample; distinct by parameters and first outputs. Days: 5e8 (thorough 8.6e9) outputs after the end.",
    assumptions: &[],
    exhaustive: false,
    fams: &[
        Fam { name: "resample", quick: 16000, thorough: 90000, run: resample },
        Fam { name: "long", quick: 320, thorough: 900, run: resample_long },
        Fam { name: "empty", quick: 320, thorough: 900, run: resample_empty },
        Fam { name: "days", quick: 2, thorough: 4, run: crate::c_long::ended },
    ],
};

// ---------------------------------------------------------------- C12

fn loop_play(c: &mut Case, t: &[f32], rate: f64, start: usize, end: usize, swap: bool, steps: usize, changes: f64, given: Option<f64>) -> R {
    let mut p = if swap {
        MonoResampler::new(mono(t), rate, end, start)
    } else {
        MonoResampler::new(mono(t), rate, start, end)
    };
    let mut sp = 1.0;
    if let Some(v) = given {
        sp = v;
        p.set_playback_speed(sp);
    }
    let l = (end - start) as i64;
    let at = |k: i64| -> f64 {
        let k = k.max(0);
        let k = if k < end as i64 { k } else { start as i64 + (k - start as i64) % l };
        t[k as usize] as f64
    };
    let mut pos = Pos::new();
    let mut set = 0;
    let mut seams = 0u64;
    for n in 0..steps {
        let y = p.process();
        let e = pos.tol();
        let (lo, hi) = if e > 0.5 {
            // Lost track of the position: only the values can be checked.
            let region = &t[start..end];
            (region.iter().fold(f64::MAX, |m, x| m.min(*x as f64)), region.iter().fold(f64::MIN, |m, x| m.max(*x as f64)))
        } else {
            span(&at, (pos.pos - e).max(0.0), pos.pos + e)
        };
        let scale = around(&at, &pos).max(lo.abs()).max(hi.abs());
        let tol = 4e-7 * scale + 1e-30;
        if !(y as f64 >= lo - tol && y as f64 <= hi + tol) {
            return Err(Fail::new(format!(
                "output {} is {} for {:?} at position {} (track of {}, loop {}..{}, rate {}, speed {}, {} changes)",
                n, y, (lo, hi), pos.pos, t.len(), start, end, rate, sp, set
            )));
        }
        if n < 64 {
            c.fold_f(y);
        }
        let d = rate / SR * sp;
        let before = ((pos.pos - start as f64) / l as f64).floor();
        pos.step(d, end as f64 + d);
        // Equivalent positions keep the numbers small (exactly).
        if pos.pos >= 2.0 * end as f64 + 4.0 * l as f64 {
            let turns = ((pos.pos - start as f64) / l as f64).floor() - 1.0;
            pos.pos -= turns * l as f64;
            seams += turns as u64;
        } else if ((pos.pos - start as f64) / l as f64).floor() > before.max(0.0) {
            seams += 1;
        }
        if changes > 0.0 && c.rng.chance(changes) {
            sp = speed(&mut c.rng);
            p.set_playback_speed(sp);
            set += 1;
        }
    }
    c.ev("outputs", steps as u64);
    c.ev("seams_crossed", seams);
    c.ev("speed_changes", set);
    if seams > 0 {
        c.nontrivial();
    }
    Ok(())
}

fn loop_points(r: &mut Rng, n: usize) -> (usize, usize) {
    loop {
        let (a, b) = match r.below(8) {
            0 => (0, n),
            1 => (n - 1, n),
            2 => (0, 1),
            3 => {
                let a = r.below(n);
                (a, a + 1)
            }
            4 => (r.below(n), n),
            5 => (0, r.range(1, n)),
            _ => (r.below(n), r.range(1, n)),
        };
        if a < b {
            return (a, b);
        }
    }
}

fn looping(c: &mut Case) -> R {
    for k in 0..6 {
        let n = match c.rng.below(4) {
            0 => c.rng.range(1, 6),
            _ => c.rng.log_range(1, 3000),
        };
        let t = track(&mut c.rng, n);
        let rate = source_rate(&mut c.rng);
        let (a, b) = loop_points(&mut c.rng, n);
        let ch = *c.rng.pick(&[0.0, 0.0, 0.01, 0.2]);
        let swap = c.rng.chance(0.3);
        if k == 0 {
            c.desc(format!("track of {} samples at {} Hz, loop {}..{}{}, speed changes {} per output; and 5 more", n, rate, a, b, if swap { " (given swapped)" } else { "" }, ch));
        }
        play_loop(c, &t, rate, a, b, swap, 8000, ch)?;
    }
    Ok(())
}

fn play_loop(c: &mut Case, t: &[f32], rate: f64, a: usize, b: usize, swap: bool, steps: usize, ch: f64) -> R {
    let sp = if c.rng.chance(0.6) { Some(speed(&mut c.rng)) } else { None };
    loop_play(c, t, rate, a, b, swap, steps, ch, sp)
}

fn looping_exact(c: &mut Case) -> R {
    // Steps that add up exactly, so there is no tolerance in the position.
    for k in 0..6 {
        let n = c.rng.log_range(1, 400);
        let t = track(&mut c.rng, n);
        let rate = 48000.0 * 2f64.powi(c.rng.range(0, 6) as i32 - 3);
        let (a, b) = loop_points(&mut c.rng, n);
        let swap = c.rng.chance(0.3);
        if k == 0 {
            c.desc(format!("track of {} samples at {} Hz, loop {}..{}; and 5 more", n, rate, a, b));
        }
        play_loop(c, &t, rate, a, b, swap, 4000, 0.0)?;
    }
    Ok(())
}

fn looping_long(c: &mut Case) -> R {
    let n = c.rng.log_range(2, 100_000);
    let t = track(&mut c.rng, n);
    let (a, b) = loop_points(&mut c.rng, n);
    let rate = *c.rng.pick(&[44100.0, 48000.0, 22050.0, 96000.0, 47999.0, 12345.6]);
    let m = c.t(1_000_000, 20_000_000);
    c.desc(format!("track of {} samples at {} Hz, loop {}..{}, {} outputs", n, rate, a, b, m));
    play_loop(c, &t, rate, a, b, false, m, 0.0)
}

/// Loops that lie beyond what a 16-bit index reaches, with steps large enough
/// to get there and to go around.
fn looping_far(c: &mut Case) -> R {
    let n = c.rng.log_range(66_000, c.t(400_000, 3_000_000));
    let t = track(&mut c.rng, n);
    let beyond = |r: &mut Rng| 65_000 + r.below(n - 65_000);
    let (a, b) = loop {
        let (a, b) = match c.rng.below(5) {
            0 => {
                let a = beyond(&mut c.rng);
                (a, a + c.rng.log_range(1, 300))
            }
            1 => (c.rng.below(n), n),
            2 => (c.rng.log_range(0, 1000), beyond(&mut c.rng)),
            3 => {
                let k = c.rng.range(1, n / 65_536);
                let b = 65_536 * k + c.rng.below(3) - 1;
                (b.saturating_sub(c.rng.log_range(1, 5000)), b)
            }
            _ => (beyond(&mut c.rng), n - c.rng.log_range(0, 1000)),
        };
        if a < b && b <= n {
            break (a, b);
        }
    };
    let rate = *c.rng.pick(&[48000.0, 44100.0, 96000.0, 24000.0, 1e6]);
    let step = match c.rng.below(3) {
        0 => c.rng.range(1, 40) as f64,
        1 => c.rng.range(20, 4000) as f64 / 128.0,
        _ => c.rng.uni(0.4, 40.0),
    };
    let sp = step * SR / rate;
    let m = ((b + 40 * (b - a).min(20_000)) as f64 / step) as usize + 2000;
    c.desc(format!("track of {} samples, loop {}..{}, {} source samples per output, {} outputs", n, a, b, step, m));
    loop_play(c, &t, rate, a, b, c.rng.clone().chance(0.2), m, 0.0, Some(sp))
}

pub const C12: Check = Check {
    id: "C12",
    rule: "tracks of 1 to 3000 (long family 1e5, far family 66000 to 4e5, thorough 3e6, with the loop or its end beyond sample 65536) samples with loops of every position and length down to one sample (whole track, at the start, at the end, given swapped), source rates 1 Hz to 10 MHz, speeds 0 to 1e4, speed changes; every output compared with interpolation in the endless track at the exact position widened by the rounding of a double position (nothing for dyadic steps). Non-trivial: at least one seam was crossed; distinct by parameters and first outputs. Days: 5e8 (thorough 8.6e9) outputs of loops in whole steps, each compared.",
    assumptions: &["loop points lie inside the track, the end after the start"],
    exhaustive: false,
    fams: &[
        Fam { name: "looping", quick: 4400, thorough: 27000, run: looping },
        Fam { name: "exact", quick: 2200, thorough: 13000, run: looping_exact },
        Fam { name: "long", quick: 260, thorough: 460, run: looping_long },
        Fam { name: "far", quick: 800, thorough: 2500, run: looping_far },
        Fam { name: "days", quick: 4, thorough: 8, run: crate::c_long::looped },
    ],
};
