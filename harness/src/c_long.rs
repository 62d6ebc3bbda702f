//! Hours and days of audio: every component must do after billions of samples
//! what it does after a few.

use crate::c_gen::{judge, phase, tau, Osc};
use crate::ensure;
use crate::rng::*;
use crate::rt::*;
use crate::util::*;
use bae_rs::channels::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sounds::*;
use bae_rs::utils::MonoResampler;
use bae_rs::*;
use std::sync::Arc;

/// Value i of an endless signal in [-1,1), multiples of 2^-12.
#[inline]
pub fn hash(key: u64, i: u64) -> f32 {
    let h = (i.wrapping_add(key)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let h = (h ^ (h >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    ((h >> 51) as i32 - 4096) as f32 / 4096.0
}

struct HashGen {
    key: u64,
    i: u64,
}

impl Generator for HashGen {
    fn process(&mut self) -> SampleT {
        let y = hash(self.key, self.i);
        self.i += 1;
        y
    }
}

/// Where to look: about every power of two and here and there.
fn windows(r: &mut Rng, n: u64, len: u64) -> Vec<u64> {
    let mut w = Vec::new();
    let mut p = 1 << 12;
    while p + len < n {
        w.push(p - len / 2);
        p *= 2;
    }
    for _ in 0..16 {
        w.push(r.uni(0.0, 1.0).mul_add((n - 2 * len) as f64, 0.0) as u64);
    }
    w.push(n - len);
    w.sort();
    let mut v: Vec<u64> = Vec::new();
    for x in w {
        if v.last().map(|l| l + len <= x).unwrap_or(true) {
            v.push(x);
        }
    }
    v
}

const LOOK: u64 = 2000;

/// Runs something whose output depends on no more than the last `memory`
/// inputs for n samples; now and then a fresh one that was given just these
/// must agree with it.
fn lasting<F: FnMut(f32) -> f32, M: Fn(u64) -> F>(c: &mut Case, what: &str, n: u64, memory: u64, tol: f64, make: M) -> R {
    let key = c.rng.u64();
    let mut f = make(0);
    let mut i = 0;
    for w in windows(&mut c.rng, n, LOOK) {
        let mut top = 0.0f32;
        while i < w {
            let y = f(hash(key, i)).abs();
            if !(y <= top) {
                top = y;
            }
            i += 1;
            if i & 0xffff == 0 && c.late() {
                break;
            }
        }
        // Cut short when too slow, but looked at all the same.
        let w = i;
        ensure!(top < 1e6, "{}: an output of magnitude {} before sample {}", what, top, i);
        let from = w.saturating_sub(memory);
        let mut g = make(from);
        for k in from..w {
            g(hash(key, k));
        }
        let mut most = 1.0f64;
        for k in w..w + LOOK {
            let (y, z) = (f(hash(key, k)), g(hash(key, k)));
            most = most.max(z.abs() as f64);
            ensure!(close(y as f64, z as f64, tol * most), "{}: sample {} is {}, {} after just the {} samples before", what, k, y, z, memory);
            if k < w + 4 {
                c.fold_f(y);
            }
        }
        i = w + LOOK;
        c.ev("late_windows", 1);
        if c.late() {
            c.ev("cut_short", 1);
            break;
        }
    }
    c.ev("long_run_samples", i);
    c.desc(format!("{} for {} samples", what, i));
    c.nontrivial();
    Ok(())
}

fn n(c: &Case, quick: u32, thorough: u32) -> u64 {
    (1u64 << if c.thorough { thorough } else { quick }) + (1 << 20)
}

pub fn osc<O: Osc>(c: &mut Case) -> R {
    let n = n(c, 28, 33);
    let f = if c.rng.chance(0.5) { freq(&mut c.rng).max(1.0) } else { c.rng.range(20, 20_000) as f64 };
    let mut o = O::new(f);
    let mut i = 0;
    for w in windows(&mut c.rng, n, LOOK) {
        let mut top = 0.0f32;
        while i < w {
            let y = o.process().abs();
            if !(y <= top) {
                top = y;
            }
            i += 1;
            if i & 0xffff == 0 && c.late() {
                break;
            }
        }
        let w = i;
        ensure!(top <= 1.0, "{:?} at {} Hz: a sample of magnitude {} before sample {}", O::KIND, f, top, i);
        ensure!(rel(o.get_frequency(), f, 1e-9), "{:?} reports {} for {} Hz after {} samples", O::KIND, o.get_frequency(), f, i);
        for k in w..w + LOOK {
            let y = o.process();
            if let Err(m) = judge(O::KIND, y, phase(k, f), tau(k), false) {
                return Err(Fail::new(format!("{} Hz, sample {}: {}", f, k, m)));
            }
            if k < w + 4 {
                c.fold_f(y);
            }
        }
        i = w + LOOK;
        c.ev("late_windows", 1);
        if c.late() {
            c.ev("cut_short", 1);
            break;
        }
    }
    c.ev("long_run_samples", i);
    c.desc(format!("{:?} at {} Hz for {} samples", O::KIND, f, i));
    c.nontrivial();
    Ok(())
}

pub fn lowpass(c: &mut Case) -> R {
    let (fc, r) = (c.rng.log_uni(300.0, 23000.0), c.rng.uni(0.0, 0.8));
    let n = n(c, 28, 32);
    lasting(c, &format!("LowPass::new({}, {})", fc, r), n, 1 << 16, 1e-4, |_| {
        let mut m = LowPass::new(fc, r);
        move |x| m.process(x)
    })
}

pub fn highpass(c: &mut Case) -> R {
    let (fc, r) = (c.rng.log_uni(300.0, 23000.0), c.rng.uni(0.0, 0.8));
    let n = n(c, 28, 32);
    lasting(c, &format!("HighPass::new({}, {})", fc, r), n, 1 << 16, 1e-4, |_| {
        let mut m = HighPass::new(fc, r);
        move |x| m.process(x)
    })
}

pub fn bandpass(c: &mut Case) -> R {
    let (f, q) = (c.rng.log_uni(500.0, 15000.0), c.rng.uni(0.3, 3.0));
    let n = n(c, 28, 32);
    lasting(c, &format!("BandPass::new({}, {})", f, q), n, 1 << 16, 1e-4, |_| {
        let mut m = BandPass::new(f, q);
        move |x| m.process(x)
    })
}

pub fn delay(c: &mut Case) -> R {
    let d = duration(&mut c.rng, 1.0);
    let n = n(c, 29, 32);
    lasting(c, &format!("Delay::new({:?})", d), n, 50_000, 0.0, |_| {
        let mut m = Delay::new(d);
        move |x| m.process(x)
    })
}

pub fn echo(c: &mut Case) -> R {
    let d = std::time::Duration::from_micros(c.rng.log_range(1, 20_000) as u64);
    let g = c.rng.uni(-0.6, 0.6);
    let n = n(c, 29, 32);
    lasting(c, &format!("Echo::new({:?}, {})", d, g), n, 100_000, 1e-5, |_| {
        let mut m = Echo::new(d, g);
        move |x| m.process(x)
    })
}

pub fn envelope(c: &mut Case) -> R {
    let a = c.rng.log_uni(20.0, 5000.0) as f32;
    let b = c.rng.log_uni(20.0, 20000.0) as f32;
    let n = n(c, 28, 32);
    lasting(c, &format!("Envelope::new({}, {})", a, b), n, 1 << 16, 1e-4, |_| {
        let mut m = Envelope::new(a, b);
        move |x| m.process(x)
    })
}

pub fn plain(c: &mut Case) -> R {
    let a = c.rng.uni(-3.0, 3.0) as f32;
    let n = n(c, 28, 32);
    match c.idx % 3 {
        0 => lasting(c, &format!("Gain::new({})", a), n, 0, 0.0, |_| {
            let mut m = Gain::new(a);
            move |x| m.process(x)
        }),
        1 => lasting(c, "Passthrough::new()", n, 0, 0.0, |_| {
            let mut m = Passthrough::new();
            move |x| m.process(x)
        }),
        _ => {
            let z: Zeros = (0..4).map(|i| (i * c.rng.range(1, 9), c.rng.uni(-1.0, 1.0) as f32)).collect();
            let p: Poles = (0..2).map(|i| (i * c.rng.range(1, 9), c.rng.uni(-0.4, 0.4) as f32)).collect();
            lasting(c, &format!("Generic::new({:?}, {:?})", z, p), n, 1 << 14, 1e-4, |_| {
                let mut m = Generic::new(z.clone(), p.clone());
                move |x| m.process(x)
            })
        }
    }
}

pub fn adsr(c: &mut Case) -> R {
    use std::time::Duration;
    let n = n(c, 29, 33);
    let db = c.rng.uni(-40.0, 0.0);
    let (a, d, r) = (Duration::from_millis(5), Duration::from_millis(7), Duration::from_millis(1000));
    let mut e = ADSR::new(a, d, db, r);
    let s = 10f64.powf(db / 20.0);
    for _ in 0..600 {
        e.process(1.0);
    }
    let (mut lo, mut hi) = (1.0f32, 0.0f32);
    for i in 0..n {
        let y = e.process(1.0);
        if !(y >= lo) {
            lo = y;
        }
        if !(y <= hi) {
            hi = y;
        }
        if i & 0xff_ffff == 0 || i + 1 == n {
            ensure!(close(lo as f64, s, 1e-6 * s) && close(hi as f64, s, 1e-6 * s), "a sustain of {} dB lies in {}..{} within {} samples", db, lo, hi, i);
            if c.late() {
                c.ev("cut_short", 1);
                break;
            }
        }
    }
    e.release();
    let mut prev = e.process(1.0);
    for k in 1..48_010 {
        let y = e.process(1.0);
        ensure!(y <= prev, "the release after {} samples rises at sample {}", n, k);
        ensure!(close(y as f64, (s * (1.0 - k as f64 / 48_000.0)).max(0.0), 3.0 * s / 48_000.0), "the release after {} samples is {} at sample {}", n, y, k);
        prev = y;
    }
    // Silence stays, too.
    let mut top = 0.0f32;
    for k in 0..n / 4 {
        if k & 0xffff == 0 && c.late() {
            break;
        }
        let y = e.process(1.0).abs();
        if !(y <= top) {
            top = y;
        }
    }
    ensure!(top == 0.0, "{} long after the release", top);
    c.ev("long_run_samples", n + n / 4);
    c.desc(format!("a sustain of {} dB held for {} samples, its release and silence", db, n));
    c.fold_f(hi);
    c.nontrivial();
    Ok(())
}

pub fn looped(c: &mut Case) -> R {
    let n = n(c, 29, 33);
    let len = c.rng.log_range(4, 5000);
    let t: Vec<f32> = (0..len as u64).map(|i| hash(c.idx, i)).collect();
    let (a, b) = (c.rng.below(len / 2), c.rng.range(len / 2 + 1, len));
    let mut p = MonoResampler::new(t.iter().map(|s| Mono::from_sample(*s)).collect(), 48000.0, a, b);
    let step = *c.rng.pick(&[1usize, 1, 2, 3]);
    p.set_playback_speed(step as f64);
    let mut k = 0;
    for i in 0..n {
        if i & 0xffff == 0xffff && c.late() {
            c.ev("cut_short", 1);
            break;
        }
        let y = p.process();
        if y != t[k] {
            return Err(Fail::new(format!("output {} is {} instead of {} (sample {} of {}, loop {}..{}, {} samples per output)", i, y, t[k], k, len, a, b, step)));
        }
        k += step;
        while k >= b {
            k -= b - a;
        }
    }
    c.ev("long_run_samples", n);
    c.desc(format!("a loop {}..{} for {} samples, {} at a time", a, b, n, step));
    c.fold(len as u64);
    c.nontrivial();
    Ok(())
}

/// Nothing comes after the end, however long one waits.
pub fn ended(c: &mut Case) -> R {
    let n = n(c, 29, 33);
    let len = c.rng.range(1, 1000);
    let mut p = MonoResampler::new((0..len).map(|_| Mono::from_sample(0.5)).collect(), c.rng.log_uni(8000.0, 200_000.0), 0, 0);
    p.set_playback_speed(c.rng.log_uni(0.5, 100.0));
    for _ in 0..20_000 {
        p.process();
    }
    let mut top = 0.0f32;
    for i in 0..n {
        if i & 0xffff == 0xffff && c.late() {
            break;
        }
        let y = p.process().abs();
        if !(y <= top) {
            top = y;
        }
    }
    ensure!(top == 0.0, "{} long after the end of a track of {}", top, len);
    c.ev("long_run_samples", n);
    c.desc(format!("{} outputs after the end of a track of {}", n, len));
    c.fold(len as u64);
    c.nontrivial();
    Ok(())
}

pub fn block(c: &mut Case) -> R {
    let n = n(c, 27, 32);
    let d = std::time::Duration::from_micros(c.rng.log_range(1, 20_000) as u64);
    let key = c.rng.u64();
    lasting(c, "a block", n, 50_000, 0.0, |i| {
        let mut b = StandardBlock::new(HashGen { key, i }, Delay::new(d), Arc::new(|a, b| a + 0.5 * b));
        move |x| {
            b.prime_input(0.5 * x);
            b.prime_input(0.25 * x);
            b.process()
        }
    })
}

pub fn simple(c: &mut Case) -> R {
    let n = n(c, 26, 31);
    let key = c.rng.u64();
    let d = std::time::Duration::from_micros(c.rng.log_range(1, 20_000) as u64);
    lasting(c, "a simple sound", n, 50_000, 0.0, |i| {
        let mut s = SimpleSound::new(0.5, -2.0, Arc::new(StandardBlock::new(HashGen { key, i }, Passthrough::new(), Arc::new(|a, b| a - b))));
        s.extend_modifiers(vec![Arc::new(StandardBlock::from_modifier(Delay::new(d))), Arc::new(StandardBlock::from_modifier(Gain::new(0.5)))]);
        move |x| s.process(x)
    })
}

pub fn complex(c: &mut Case) -> R {
    let n = n(c, 24, 30);
    let key = c.rng.u64();
    let d = std::time::Duration::from_micros(c.rng.log_range(1, 20_000) as u64);
    let back = c.rng.chance(0.5);
    lasting(c, if back { "a complex sound with feedback" } else { "a complex sound" }, n, 300_000, 1e-5, |i| {
        let mut s = ComplexSound::new(0.5, -2.0);
        let g = s.add_block(Arc::new(StandardBlock::from_generator(HashGen { key, i })));
        let m = s.add_block(Arc::new(StandardBlock::from_modifier(Delay::new(d))));
        let a = s.add_block(Arc::new(StandardBlock::from_modifier(Gain::new(0.25))));
        let (ig, og) = (s.get_input_gain(), s.get_output_gain());
        for (x, y) in &[(g, m), (ig, m), (m, a), (m, og), (a, og), (ig, og)] {
            s.add_connection(*x, *y);
        }
        if back {
            s.add_connection(a, m);
        }
        move |x| s.process(x)
    })
}

/// A sound paused and muted millions of times.
pub fn toggling(c: &mut Case) -> R {
    let n = n(c, 23, 30);
    let key = c.rng.u64();
    let p = *c.rng.pick(&[1.0, 0.5, 0.1]);
    let gen: BlockSP = Arc::new(StandardBlock::from_generator(HashGen { key, i: 0 }));
    let mut s: Box<dyn Sound> = if c.idx % 2 == 0 {
        Box::new(SimpleSound::new(1.0, 1.0, gen))
    } else {
        let mut s = ComplexSound::new(1.0, 1.0);
        let g = s.add_block(gen);
        let o = s.get_output_gain();
        s.add_connection(g, o);
        Box::new(s)
    };
    let (mut paused, mut muted) = (false, false);
    let mut k = 0;
    let (mut np, mut nm) = (0, 0);
    for i in 0..n {
        if i & 0xffff == 0xffff && c.late() {
            c.ev("cut_short", 1);
            break;
        }
        let h = hash(!key, i);
        if (h.abs() as f64) < p {
            // One kind only for long stretches, else both.
            let kind = (i >> 18) % 3;
            if kind == 0 || (kind == 2 && h > 0.0) {
                s.toggle_pause();
                paused = !paused;
                np += 1;
            } else {
                s.toggle_mute();
                muted = !muted;
                nm += 1;
            }
        }
        if s.is_paused() != paused || s.is_muted() != muted {
            return Err(Fail::new(format!("after pausing or continuing {} and muting or unmuting {} times: paused {} and muted {} are reported as {} and {}", np, nm, paused, muted, s.is_paused(), s.is_muted())));
        }
        let y = s.process(0.0);
        let want = if paused {
            0.0
        } else {
            k += 1;
            if muted { 0.0 } else { hash(key, k - 1) }
        };
        if y != want {
            return Err(Fail::new(format!("sample {} is {} for {} (after pausing or continuing {} and muting or unmuting {} times)", i, y, want, np, nm)));
        }
    }
    c.ev("toggles", np + nm);
    c.ev("long_run_samples", n);
    c.desc(format!("{} pauses and continuations, {} mutes and unmutes in {} samples", np, nm, n));
    c.fold(key);
    c.nontrivial();
    Ok(())
}

pub fn channel<S: SampleFormat + Clone + 'static>(c: &mut Case) -> R {
    let n = n(c, 25, 31);
    let key = c.rng.u64();
    let (g, mut ch) = (c.rng.uni(-2.0, 2.0) as f32, StandardChannel::<S>::new(1.0));
    ch.set_gain(g as f64);
    for i in 0..3 {
        let mut s: Arc<dyn Sound> = Arc::new(SimpleSound::new(1.0, 0.5, Arc::new(StandardBlock::from_generator(HashGen { key: key.wrapping_mul(i + 1), i: 0 }))));
        ch.add_sound(&mut s);
    }
    let mut i = 0;
    let mut calls = 0u64;
    while i < n && !(calls & 0xff == 0xff && c.late()) {
        if calls % 100_000 == 0 {
            ch.set_process_time(std::time::Duration::from_micros(c.rng.log_range(100, 40_000) as u64));
        }
        ch.process();
        calls += 1;
        for y in ch.get_output() {
            let sum: f32 = (0..3).map(|k| 0.5 * hash(key.wrapping_mul(k + 1), i)).sum();
            let want = (sum * g) as f64;
            let y = y.clone().into_sample() as f64;
            if !close(y, want, 1e-5) {
                return Err(Fail::new(format!("sample {} of call {} is {} for {}", i, calls, y, want)));
            }
            i += 1;
        }
        if ch.get_output().is_empty() {
            return Err(Fail::new("an empty track for at least 100 microseconds".into()));
        }
    }
    c.ev("long_run_samples", n);
    c.ev("process_calls", calls);
    c.desc(format!("{} samples in {} calls", i, calls));
    c.fold(key);
    c.nontrivial();
    Ok(())
}
