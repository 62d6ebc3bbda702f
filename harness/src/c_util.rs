//! C28 unit conversions and interpolation, C29 normalisation, C30 helpers.

use crate::ensure;
use crate::rt::*;
use crate::util::*;
use bae_rs::debug::{float_equal, VecReader};
use bae_rs::utils::*;
use std::io::Read;
use std::time::Duration;

// ---------------------------------------------------------------- C28

fn counts(c: &mut Case) -> R {
    let n = c.t(20000, 400000);
    for k in 0..n {
        let s = match c.rng.below(6) {
            0 => c.rng.below(1000),
            1 => c.rng.below(200) * 480,
            2 => (1usize << c.rng.below(40)) + c.rng.below(3) - 1,
            3 => c.rng.below(1 << 40),
            4 => c.rng.log_range(0, 1 << 36),
            _ => c.rng.below(10_000_000),
        };
        let d = samples_to_seconds(s);
        let want = s as u128 * 1_000_000_000;
        let got = d.as_nanos() * 48000;
        let diff = want.abs_diff(got);
        // Nearest or truncated nanosecond, plus the resolution of the seconds.
        let tol = 48000 * (2 + (s as f64 / SR * 1e9 * 4e-16) as u128);
        ensure!(diff <= tol, "{} samples are {:?}", s, d);
        let back = seconds_to_samples(d);
        ensure!(back == s, "{} samples -> {:?} -> {} samples", s, d, back);
        c.fold(s as u64);
        if k == 0 {
            c.desc(format!("{} samples <-> {:?}, and {} more counts", s, d, n - 1));
        }
    }
    c.ev("counts", n as u64);
    c.nontrivial();
    Ok(())
}

fn durations(c: &mut Case) -> R {
    let n = c.t(20000, 400000);
    for k in 0..n {
        let d = match c.rng.below(5) {
            0 => Duration::new(0, c.rng.below(1_000_000) as u32),
            1 => Duration::from_millis(c.rng.below(100_000) as u64),
            2 => Duration::new(c.rng.log_range(0, 1 << 28) as u64, c.rng.below(1_000_000_000) as u32),
            3 => Duration::from_nanos(((c.rng.below(1 << 20) * 2 + 1) as f64 * 1e9 / 96000.0) as u64 + c.rng.below(2) as u64),
            _ => Duration::new(c.rng.below(100) as u64, c.rng.below(1_000_000_000) as u32),
        };
        let got = seconds_to_samples(d) as i128;
        // Twice the distance, in units of 1/(1e9) sample.
        let exact = d.as_nanos() as i128 * 48000;
        let diff = (got * 1_000_000_000 - exact).abs();
        let tol = 500_000_000 + 10 + (exact as f64 * 4e-16) as i128;
        ensure!(diff <= tol, "{:?} are {} samples, exactly {}", d, got, exact as f64 / 1e9);
        c.fold(got as u64);
        if k == 0 {
            c.desc(format!("{:?} -> {} samples, and {} more durations", d, got, n - 1));
        }
    }
    c.ev("durations", n as u64);
    c.nontrivial();
    Ok(())
}

fn decibels(c: &mut Case) -> R {
    let n = c.t(10000, 200000);
    ensure!(rel(db_to_linear(0.0), 1.0, 1e-14), "0 dB is {}", db_to_linear(0.0));
    ensure!(close(linear_to_db(1.0), 0.0, 1e-12), "gain 1 is {} dB", linear_to_db(1.0));
    let mut prev: Option<(f64, f64)> = None;
    let mut dbs: Vec<f64> = (0..n)
        .map(|_| match c.rng.below(4) {
            0 => c.rng.range(0, 400) as f64 - 200.0,
            1 => c.rng.uni(-1.0, 1.0),
            2 => c.rng.uni(-3000.0, 3000.0),
            _ => c.rng.uni(-200.0, 60.0),
        })
        .collect();
    dbs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for db in &dbs {
        let g = db_to_linear(*db);
        ensure!(g > 0.0 && g.is_finite(), "{} dB is gain {}", db, g);
        let want = (db * std::f64::consts::LN_10 / 20.0).exp();
        ensure!(rel(g, want, 1e-11), "{} dB is gain {:e} for {:e}", db, g, want);
        let back = linear_to_db(g);
        ensure!(close(back, *db, 1e-9 * (1.0 + db.abs())), "{} dB -> {:e} -> {} dB", db, g, back);
        ensure!(rel(db_to_linear(db + 20.0), 10.0 * g, 1e-11), "+20 dB at {} dB is a factor of {}", db, db_to_linear(db + 20.0) / g);
        if let Some((pd, pg)) = prev {
            ensure!(if *db > pd + 1e-9 { g > pg } else { g >= pg * (1.0 - 1e-12) }, "gain does not increase from {} to {} dB", pd, db);
        }
        prev = Some((*db, g));
        let g = c.rng.log_uni(1e-150, 1e150);
        let db2 = linear_to_db(g);
        ensure!(rel(db_to_linear(db2), g, 1e-11), "gain {:e} -> {} dB -> {:e}", g, db2, db_to_linear(db2));
        let g2 = g * (1.0 + c.rng.uni(1e-9, 1.0));
        ensure!(linear_to_db(g2) > db2, "level does not increase from {:e} to {:e}", g, g2);
        c.fold(g.to_bits());
    }
    c.ev("levels", 2 * n as u64);
    c.desc(format!("{} ascending levels from {} dB to {} dB and random gains", n, dbs[0], dbs[n - 1]));
    c.nontrivial();
    Ok(())
}

fn lerp64(c: &mut Case) -> R {
    let n = c.t(20000, 400000);
    for k in 0..n {
        let sc = if c.rng.chance(0.5) { 1.0 } else { c.rng.log_uni(1e-10, 1e10) };
        let sy = if c.rng.chance(0.5) { 1.0 } else { c.rng.log_uni(1e-10, 1e10) };
        let mut v = |s: f64| if c.rng.chance(0.3) { (c.rng.below(21) as f64 - 10.0) * s } else { c.rng.uni(-10.0, 10.0) * s };
        let (x1, x2, y1, y2) = (v(sc), v(sc), v(sy), v(sy));
        let x = match c.rng.below(6) {
            0 => x1,
            1 => x2,
            2 => 0.5 * (x1 + x2),
            3 => x1 + (x2 - x1) * c.rng.uni(-5.0, 6.0),
            _ => x1 + (x2 - x1) * c.rng.f64(),
        };
        if (x2 - x1).abs() < 1e-6 * (x1.abs() + x2.abs()) || x1 == x2 {
            continue;
        }
        let f = (x - x1) / (x2 - x1);
        let cond = (x.abs() + x1.abs() + x2.abs()) / (x2 - x1).abs() * (1.0 + f.abs());
        let tol = 1e-14 * (y1.abs() + y2.abs()) * (1.0 + cond) + 1e-300;
        let want = y1 + (y2 - y1) * f;
        let got = lerp(x, x1, x2, y1, y2);
        ensure!(close(got, want, tol), "lerp({}, {}, {}, {}, {}) = {} for {}", x, x1, x2, y1, y2, got, want);
        let fc = f.max(0.0).min(1.0);
        let wantc = y1 + (y2 - y1) * fc;
        let gotc = clerp(x, x1, x2, y1, y2);
        ensure!(close(gotc, wantc, tol), "clerp({}, {}, {}, {}, {}) = {} for {}", x, x1, x2, y1, y2, gotc, wantc);
        c.fold(got.to_bits());
        // Single precision.
        let (xs, x1s, x2s, y1s, y2s) = (x as f32, x1 as f32, x2 as f32, y1 as f32, y2 as f32);
        if (x2s - x1s).abs() as f64 > 1e-2 * (x1.abs() + x2.abs()) {
            let f = (xs as f64 - x1s as f64) / (x2s as f64 - x1s as f64);
            let tol = 1e-5 * (y1.abs() + y2.abs()) * (1.0 + cond) + 1e-38;
            let (g1, g2) = (lerp(xs, x1s, x2s, y1s, y2s) as f64, clerp(xs, x1s, x2s, y1s, y2s) as f64);
            let fc = f.max(0.0).min(1.0);
            ensure!(close(g1, y1 + (y2 - y1) * f, tol), "lerp({}, {}, {}, {}, {}) = {} in single precision", xs, x1s, x2s, y1s, y2s, g1);
            ensure!(close(g2, y1 + (y2 - y1) * fc, tol), "clerp({}, {}, {}, {}, {}) = {} in single precision", xs, x1s, x2s, y1s, y2s, g2);
        }
        if k < 5 {
            c.desc(format!("lerp/clerp({}, {}, {}, {}, {}) = {} / {}, and {} more", x, x1, x2, y1, y2, got, gotc, n - 1));
        }
    }
    c.ev("interpolations", 2 * n as u64);
    c.nontrivial();
    Ok(())
}

pub const C28: Check = Check {
    id: "C28",
    rule: "sample counts up to 2^40 to times and back (exact integer oracle), durations up to 2^28 s against exact rational rounding, levels from -3000 to 3000 dB ascending and gains from 1e-150 to 1e150, interpolations with end points in either order, inside and outside, both precisions, to rounding scaled by the condition of the problem. Every case is non-trivial; distinct by the values seen.",
    assumptions: &["the interpolation's end points differ", "ties between two sample counts may go either way"],
    exhaustive: false,
    fams: &[
        Fam { name: "counts", quick: 7200, thorough: 8800, run: counts },
        Fam { name: "durations", quick: 7200, thorough: 8800, run: durations },
        Fam { name: "decibels", quick: 4800, thorough: 8800, run: decibels },
        Fam { name: "lerp", quick: 7200, thorough: 8800, run: lerp64 },
    ],
};

// ---------------------------------------------------------------- C29

fn check_norm(c: &mut Case, t: &[f32], db: f64) -> R {
    let level = 10f64.powf(db / 20.0);
    let n = t.len();
    let mut out = t.to_vec();
    normalize(db, &mut out);
    ensure!(out.len() == n, "length {} became {}", n, out.len());
    ensure!(out.iter().all(|s| s.is_finite()), "a sample became infinite or NaN");
    let mean = t.iter().map(|s| *s as f64).sum::<f64>() / n.max(1) as f64;
    let dev = t.iter().fold(0.0f64, |m, s| m.max((*s as f64 - mean).abs()));
    let constant = t.iter().all(|s| *s == t[0]);
    if constant {
        ensure!(out.iter().all(|s| *s == 0.0), "a constant track of {} did not become silent: {}", t.get(0).unwrap_or(&0.0), show(&out));
        return Ok(());
    }
    let pk = peak(&out);
    ensure!(rel(pk, level, 1e-6), "peak is {:e} for {:e} ({} dB)", pk, level, db);
    // A common positive factor, so the mean is zero but for rounding.
    let f = level / dev;
    // The mean is known to double precision of the largest samples.
    let big = t.iter().fold(0.0f64, |m, s| m.max(s.abs() as f64));
    let eps = big * f * 1e-13 * (n as f64).sqrt().max(8.0);
    let mut sum = 0.0;
    for i in 0..n {
        let want = (t[i] as f64 - mean) * f;
        ensure!((out[i] as f64 - want).abs() <= 2e-6 * want.abs() + 1e-7 * level * 1e-3 + eps, "sample {} of {}: {:e} became {:e} for {:e}", i, n, t[i], out[i], want);
        sum += out[i] as f64;
        c.fold_f(out[i]);
    }
    ensure!((sum / n as f64).abs() <= 1e-6 * level + eps, "mean is {:e} at level {:e}", sum / n as f64, level);
    c.ev("samples_checked", n as u64);
    Ok(())
}

fn db(c: &mut Case) -> f64 {
    match c.rng.below(6) {
        0 => 0.0,
        1 => *c.rng.pick(&[-3.0, -6.0, -0.1, -120.0, -96.0, 6.0, 20.0, -20.0]),
        2 => c.rng.uni(-200.0, 100.0),
        _ => c.rng.uni(-60.0, 6.0),
    }
}

fn norm_tracks(c: &mut Case) -> R {
    let reps = c.t(12, 12);
    for k in 0..reps {
        let max = if k == 0 { c.t(100_000, 1_000_000) } else { 3000 };
        let n = if k == 0 && c.idx % 400 == 0 { c.t(2_000_000, 18_000_000) } else { c.rng.log_range(2, max) };
        let off = match c.rng.below(4) {
            0 => 0.0,
            1 => c.rng.uni(-1.0, 1.0),
            2 => 0.5,
            _ => c.rng.uni(-20.0, 20.0),
        };
        let amp = match c.rng.below(4) {
            0 => 1.0,
            1 => c.rng.log_uni(1e-30, 1e30),
            2 => c.rng.log_uni(1e-4, 100.0),
            _ => 0.1,
        };
        let s = if c.rng.chance(0.15) { lulls(&mut c.rng, n) } else { signal(&mut c.rng, n) };
        // Keep the variation above the resolution of single precision.
        let off = if amp < 1e-3 { off * amp } else { off };
        let t: Vec<f32> = s.iter().map(|s| (*s as f64 * amp + off) as f32).collect();
        let d = db(c);
        check_norm(c, &t, d)?;
        if k == 0 {
            c.desc(format!("track of {} samples, amplitude {:e}, offset {}, level {} dB: {}", n, amp, off, d, show(&t)));
        }
    }
    c.ev("tracks", reps as u64);
    c.nontrivial();
    Ok(())
}

/// Tracks that need next to no change: nearly or exactly at the level, nearly
/// or exactly without offset.
fn norm_nearly(c: &mut Case) -> R {
    for _ in 0..200 {
        let n = c.rng.log_range(1, 200);
        let d = db(c).max(-120.0).min(60.0);
        let level = 10f64.powf(d / 20.0);
        // Each sample and its negative: no offset at all.
        let s = signal(&mut c.rng, n);
        let p = peak(&s).max(1e-9);
        let near = match c.rng.below(5) {
            0 => 1.0,
            1 => 1.0 + c.rng.uni(-1e-6, 1e-6),
            2 => 1.0 + c.rng.uni(-1.0, 1.0) * c.rng.log_uni(1e-6, 1e-1),
            3 => 1.0 - c.rng.log_uni(1e-5, 1e-2),
            _ => 1.0 + c.rng.log_uni(1e-5, 1e-2),
        };
        let mut t: Vec<f32> = Vec::with_capacity(2 * n);
        for x in &s {
            let v = (*x as f64 / p * level * near) as f32;
            t.push(v);
            t.push(-v);
        }
        c.rng.shuffle(&mut t);
        let o = match c.rng.below(3) {
            0 => level * c.rng.log_uni(1e-6, 1e-1) * if c.rng.chance(0.5) { 1.0 } else { -1.0 },
            _ => 0.0,
        };
        for x in &mut t {
            *x = (*x as f64 + o) as f32;
        }
        check_norm(c, &t, d)?;
        // Again, with what came out.
        let mut u = t.clone();
        normalize(d, &mut u);
        let e = if c.rng.chance(0.5) { d } else { d + c.rng.uni(-0.02, 0.02) };
        check_norm(c, &u, e)?;
    }
    c.ev("tracks", 400);
    c.desc("tracks nearly or exactly at their level, with little or no offset, and normalised again".into());
    c.nontrivial();
    Ok(())
}

fn norm_shapes(c: &mut Case) -> R {
    for _ in 0..300 {
        let n = c.rng.range(2, 40);
        let mut t: Vec<f32> = match c.rng.below(7) {
            0 => (0..n).map(|i| i as f32).collect(),
            1 => (0..n).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect(),
            2 => (0..n).map(|i| if i + 1 == n { -1.0 } else { 0.0 }).collect(),
            3 => (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -0.25 }).collect(),
            4 => (0..n).map(|_| *c.rng.pick(&[0.25f32, 0.75])).collect(),
            5 => (0..n).map(|_| c.rng.uni(0.5, 0.6) as f32).collect(),
            _ => (0..n).map(|_| -c.rng.f64() as f32).collect(),
        };
        if c.rng.chance(0.2) {
            for x in &mut t {
                *x = -*x;
            }
        }
        let d = db(c);
        check_norm(c, &t, d)?;
    }
    c.ev("tracks", 300);
    c.desc("short ramps, pulses, square waves and one-sided tracks".into());
    c.nontrivial();
    Ok(())
}

fn norm_constant(c: &mut Case) -> R {
    for _ in 0..150 {
        let n = c.rng.log_range(0, 5000);
        let v = match c.rng.below(4) {
            0 => 0.0,
            1 => *c.rng.pick(&[1.0f32, -1.0, 0.1, -0.1, 0.3, 1e-45, f32::MIN_POSITIVE, 1e30]),
            _ => c.rng.uni(-1.0, 1.0) as f32,
        };
        let d = db(c);
        let t = vec![v; n];
        check_norm(c, &t, d)?;
        c.fold_f(v);
        c.fold(n as u64);
    }
    c.ev("tracks", 150);
    c.desc("constant, silent, single-sample and empty tracks".into());
    c.nontrivial();
    Ok(())
}

fn norm_extreme(c: &mut Case) -> R {
    // Finite inputs of any size stay finite.
    for _ in 0..150 {
        let n = c.rng.log_range(1, 3000);
        let t: Vec<f32> = (0..n).map(|_| wild_f32(&mut c.rng)).collect();
        let d = db(c);
        let mut o = t.clone();
        normalize(d, &mut o);
        ensure!(o.len() == n, "length {} became {}", n, o.len());
        for (i, s) in o.iter().enumerate() {
            ensure!(s.is_finite(), "sample {} of {}: {:e} became {}", i, n, t[i], s);
            c.fold_f(*s);
        }
        if t.iter().any(|s| *s != t[0]) {
            ensure!(rel(peak(&o), 10f64.powf(d / 20.0), 1e-6), "peak {:e} at {} dB", peak(&o), d);
        }
    }
    c.ev("tracks", 150);
    c.desc("tracks of extreme finite values".into());
    c.nontrivial();
    Ok(())
}

pub const C29: Check = Check {
    id: "C29",
    rule: "tracks of 0 to 1e5, some 2e6 (thorough: 1e6 and 1.8e7) samples of every character, amplitude 1e-30..1e30, offset and level from -200 to 100 dB, plus short shapes, constant, silent and empty tracks and extreme finite values; after normalising: peak, mean, length, every sample against (sample-mean)*factor computed in f64, finiteness. Every case is non-trivial; distinct by the results.",
    assumptions: &["the level is finite"],
    exhaustive: false,
    fams: &[
        Fam { name: "tracks", quick: 32000, thorough: 48000, run: norm_tracks },
        Fam { name: "shapes", quick: 9600, thorough: 18000, run: norm_shapes },
        Fam { name: "nearly", quick: 12000, thorough: 30000, run: norm_nearly },
        Fam { name: "constant", quick: 9600, thorough: 18000, run: norm_constant },
        Fam { name: "extreme", quick: 9600, thorough: 18000, run: norm_extreme },
    ],
};

// ---------------------------------------------------------------- C30

fn vec_reader(c: &mut Case) -> R {
    let reps = 40;
    for k in 0..reps {
        let max = if k == 0 { c.t(200_000, 2_000_000) } else { 2000 };
        let n = match c.rng.below(4) {
            0 => c.rng.below(4),
            1 => c.rng.below(64),
            _ => c.rng.log_range(0, max),
        };
        let data: Vec<u8> = (0..n).map(|_| c.rng.u32() as u8).collect();
        let mut r = VecReader::new(data.clone());
        let mut pos = 0;
        let mut after_end = 0;
        let big = c.rng.log_range(1, (2 * n).max(4));
        let mode = c.rng.below(5);
        let mut calls = 0u64;
        while after_end < 5 {
            let len = match mode {
                0 => 1,
                1 => big,
                2 => c.rng.below(8) * c.rng.below(2),
                3 => *c.rng.pick(&[0, 1, 2, 3, 4, 16, 512, 4096, n, n + 1]),
                _ => c.rng.log_range(0, big),
            };
            let fill = c.rng.u32() as u8;
            let mut buf = vec![fill; len];
            let got = match r.read(&mut buf) {
                Ok(g) => g,
                Err(e) => return Err(Fail::new(format!("read error {} at {} of {}", e, pos, n))),
            };
            calls += 1;
            ensure!(got <= len, "read {} bytes into a buffer of {}", got, len);
            ensure!(pos + got <= n, "delivered {} bytes of {}", pos + got, n);
            ensure!(buf[..got] == data[pos..pos + got], "bytes {}..{} of {} are wrong", pos, pos + got, n);
            ensure!(buf[got..].iter().all(|b| *b == fill), "buffer touched beyond the {} bytes reported", got);
            if len > 0 {
                ensure!(got > 0 || pos == n, "end reported at {} of {} with a buffer of {}", pos, n, len);
            }
            pos += got;
            if pos == n {
                after_end += 1;
            }
        }
        c.ev("reads", calls);
        c.ev("bytes", n as u64);
        c.fold(calls);
        c.fold(n as u64);
        // Standard adaptors see the same.
        let mut all = Vec::new();
        let mut r = VecReader::new(data.clone());
        let first = c.rng.below(n + 1);
        let mut head = vec![0; first];
        ensure!(r.read_exact(&mut head).is_ok() && head[..] == data[..first], "read_exact of {} of {} bytes", first, n);
        ensure!(r.read_to_end(&mut all).is_ok() && all[..] == data[first..], "read_to_end after {} of {} bytes", first, n);
        let mut one = [0u8; 1];
        ensure!(r.read_exact(&mut one).is_err(), "read_exact beyond the end succeeds");
        if k == 0 {
            c.desc(format!("{} bytes with {} reads (mode {}), and {} more readers", n, calls, mode, reps - 1));
        }
    }
    c.nontrivial();
    Ok(())
}

/// More bytes than a short count holds, and more than a page or a megabyte at a
/// time.
fn vec_reader_huge(c: &mut Case) -> R {
    let n = c.rng.range(c.t(20, 100) << 20, c.t(80, 400) << 20);
    // Every place has a value of its own within any 2^24 bytes or so.
    let at = |i: usize| ((i as u64 ^ 0x9e37).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) as u8;
    let data: Vec<u8> = (0..n).map(at).collect();
    let mut r = VecReader::new(data);
    let sizes = [c.rng.range(1, 5000), c.rng.range(60_000, 70_000), c.rng.range(1 << 20, 3 << 20), 1 << 24, n];
    let mut buf = vec![0u8; n + 1];
    let (mut pos, mut calls) = (0, 0u64);
    while pos < n {
        let len = *c.rng.pick(&sizes);
        let len = len.min(n + 1);
        // The largest only sometimes, or it's over at once.
        let len = if len > 1 << 22 && c.rng.chance(0.9) { sizes[1] } else { len };
        let got = match r.read(&mut buf[..len]) {
            Ok(g) => g,
            Err(e) => return Err(Fail::new(format!("read error {} at {} of {}", e, pos, n))),
        };
        calls += 1;
        ensure!(got > 0 && got <= len && pos + got <= n, "read {} bytes at {} of {} into a buffer of {}", got, pos, n, len);
        for (i, b) in buf[..got].iter().enumerate() {
            ensure!(*b == at(pos + i), "byte {} of {} is wrong in a read of {}", pos + i, n, len);
        }
        pos += got;
    }
    ensure!(matches!(r.read(&mut buf), Ok(0)), "bytes beyond the end of {}", n);
    c.ev("reads", calls);
    c.ev("bytes", n as u64);
    c.fold(calls);
    c.desc(format!("{} bytes in {} reads", n, calls));
    c.nontrivial();
    Ok(())
}

fn float_eq(c: &mut Case) -> R {
    for _ in 0..20000 {
        let a = wild_f32(&mut c.rng);
        let b = if c.rng.chance(0.5) { f32::from_bits(a.to_bits() ^ c.rng.below(16) as u32) } else { wild_f32(&mut c.rng) };
        let e = match c.rng.below(4) {
            0 => (a - b).abs(),
            1 => 0.0,
            2 => f32::EPSILON,
            _ => wild_f32(&mut c.rng).abs(),
        };
        let (a, b, e) = match c.rng.below(400) {
            0 => (f32::NAN, b, e),
            1 => (a, f32::NAN, e),
            2 => (a, b, f32::NAN),
            3 => (a, b, f32::INFINITY),
            4 => (f32::INFINITY, *c.rng.pick(&[f32::INFINITY, f32::NEG_INFINITY, 0.0, f32::MAX]), *c.rng.pick(&[e, f32::INFINITY])),
            5 => (a, b, -e),
            6 => (a, a, 0.0),
            _ => (a, b, e),
        };
        let want = (a - b).abs() < e;
        ensure!(float_equal(a, b, e, |x: f32| x.abs()) == want, "float_equal({:e}, {:e}, {:e}) is not {}", a, b, e, want);
        ensure!(float_equal(b, a, e, |x: f32| x.abs()) == want, "float_equal({:e}, {:e}, {:e}) is not {}", b, a, e, want);
        let (p, q, s) = (a as f64, b as f64, e as f64);
        let want = (p - q).abs() < s;
        ensure!(float_equal(p, q, s, |x: f64| x.abs()) == want, "float_equal({:e}, {:e}, {:e}) is not {} in double precision", p, q, s, want);
        let (i, j, t) = (c.rng.below(20) as i32, c.rng.below(20) as i32, c.rng.below(20) as i32);
        ensure!(float_equal(i, j, t, |x: i32| x.abs()) == ((i - j).abs() < t), "float_equal({}, {}, {})", i, j, t);
        c.fold_f(a);
        c.fold_f(e);
    }
    c.ev("comparisons", 80000);
    c.desc("differences below, at and above the tolerance in f32, f64 and i32".into());
    c.nontrivial();
    Ok(())
}

pub const C30: Check = Check {
    id: "C30",
    rule: "readers over 0 to 2e5 (thorough 2e6) random bytes read with sequences of empty, one-byte, random, huge and exact buffers, several reads past the end, some of 2e7 to 8e7 (thorough 4e8) bytes, and through the standard adaptors; the comparison helper at, below and above the tolerance, with infinite, negative and NaN arguments. Every case is non-trivial; distinct by sizes and number of reads.",
    assumptions: &[],
    exhaustive: false,
    fams: &[
        Fam { name: "vec_reader", quick: 24000, thorough: 60000, run: vec_reader },
        Fam { name: "huge", quick: 16, thorough: 40, run: vec_reader_huge },
        Fam { name: "float_equal", quick: 4800, thorough: 12000, run: float_eq },
    ],
};
