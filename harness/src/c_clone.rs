//! C20: clones start fresh and leave the original alone.

use crate::c_gen::{judge, phase, tau, Kind};
use crate::c_mod::{corners, cutoff, feedback, follow_freqs, level, resonance, taps};
use crate::ensure;
use crate::rng::*;
use crate::rt::*;
use crate::util::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::utils::MonoResampler;
use bae_rs::*;
use std::collections::VecDeque;
use std::time::Duration;

pub const KINDS: [&str; 18] = [
    "sine", "square", "sawtooth", "triangle", "resampler", "looped resampler", "wave player", "adsr", "band-pass", "delay", "echo",
    "envelope", "gain", "generic", "high-pass", "low-pass", "pass-through", "short delay",
];

/// Everything an object can be set to.
#[derive(Clone, Debug)]
pub enum Set {
    Osc(usize, f64),
    Res { track: Vec<f32>, rate: f64, ls: usize, le: usize, speed: f64 },
    Wav { track: Vec<f32>, rate: f64, speed: f64 },
    Adsr(Duration, Duration, f64, Duration),
    Bp(f64, f64),
    Delay(Duration),
    Echo(Duration, f64),
    Env(f32, f32),
    Gain(f32),
    Gen(VecDeque<(usize, f32)>, VecDeque<(usize, f32)>),
    Hp(f64, f64),
    Lp(f64, f64),
    Pass,
}

#[derive(Clone)]
pub enum Obj {
    Sine(Sine),
    Square(Square),
    Saw(Sawtooth),
    Tri(Triangle),
    Res(MonoResampler),
    Wav(MonoWav),
    Adsr(ADSR),
    Bp(BandPass),
    Delay(Delay),
    Echo(Echo),
    Env(bae_rs::modifiers::Envelope),
    Gain(Gain),
    Gen(Generic),
    Hp(HighPass),
    Lp(LowPass),
    Pass(Passthrough),
}

#[derive(Clone, Debug)]
pub enum Op {
    Freq(f64),
    Speed(f64),
    Corners(f64, f64),
    Cutoff(f64),
    Resonance(f64),
    Gain(f32),
    Release,
}

fn mono(t: &[f32]) -> MonoTrackT {
    t.iter().map(|s| Mono { mono: *s }).collect()
}

impl Set {
    pub fn random(r: &mut Rng, kind: usize) -> Set {
        match kind {
            0..=3 => Set::Osc(kind, freq(r)),
            4 | 5 => {
                let n = r.log_range(1, 600);
                let track = (0..n).map(|_| r.sample()).collect();
                let rate = *r.pick(&[48000.0, 44100.0, 22050.0, 8000.0, 96000.0, 12345.0]);
                let (ls, le) = if kind == 5 {
                    let a = r.below(n);
                    (a, r.range(a + 1, n))
                } else {
                    (0, 0)
                };
                Set::Res { track, rate, ls, le, speed: 1.0 }
            }
            6 => {
                let n = r.log_range(1, 600);
                Set::Wav { track: (0..n).map(|_| r.sample()).collect(), rate: *r.pick(&[48000.0, 44100.0, 22050.0, 8000.0]), speed: 1.0 }
            }
            7 => Set::Adsr(duration(r, 0.01), duration(r, 0.01), level(r), duration(r, 0.01)),
            8 => {
                let (a, b) = corners(r, 20.0);
                Set::Bp(a.min(b), a.max(b))
            }
            9 => Set::Delay(duration(r, 0.03)),
            10 => Set::Echo(duration(r, 0.03), feedback(r)),
            11 => {
                let (a, b) = follow_freqs(r, 20000.0);
                Set::Env(a as f32, b as f32)
            }
            12 => Set::Gain(r.sample()),
            13 => {
                let z = taps(r, 1.0, 100);
                let mut p = taps(r, 1.0, 100);
                let s: f32 = p.iter().map(|p| p.1.abs()).sum();
                for p in &mut p {
                    p.1 *= 0.9 / s.max(0.9);
                }
                Set::Gen(z, p)
            }
            14 => Set::Hp(cutoff(r, 20.0), resonance(r).min(0.95)),
            15 => Set::Lp(cutoff(r, 20.0), resonance(r).min(0.95)),
            16 => Set::Pass,
            _ => Set::Delay(Duration::from_secs_f64(r.below(4) as f64 / SR)),
        }
    }

    /// The same, of a larger size, and the number of samples to see all of it.
    fn large(r: &mut Rng, kind: usize) -> (Set, usize) {
        let set = Set::random(r, kind);
        match set {
            Set::Res { rate, .. } => {
                let n = r.log_range(1000, 150_000);
                let track = (0..n).map(|_| r.sample()).collect();
                let (ls, le) = if kind == 5 {
                    let a = r.below(n);
                    (a, r.range(a + 1, n))
                } else {
                    (0, 0)
                };
                (Set::Res { track, rate, ls, le, speed: 1.0 }, (n as f64 * SR / rate * 1.2) as usize)
            }
            Set::Wav { rate, .. } => {
                let n = r.log_range(1000, 150_000);
                (Set::Wav { track: (0..n).map(|_| r.sample()).collect(), rate, speed: 1.0 }, (n as f64 * SR / rate * 1.2) as usize)
            }
            Set::Adsr(..) => (Set::Adsr(duration(r, 1.0), duration(r, 1.0), level(r), duration(r, 1.0)), 120_000),
            Set::Delay(_) => (Set::Delay(duration(r, 3.0)), 200_000),
            Set::Echo(..) => (Set::Echo(duration(r, 1.5), feedback(r)), 200_000),
            Set::Gen(..) => {
                let n = r.log_range(20, 400);
                let deep = r.log_range(n, 20_000);
                let mut list = |q: f64| -> std::collections::VecDeque<(usize, f32)> {
                    let k = (n as f64 * q) as usize;
                    (0..k).map(|i| (if r.chance(0.5) { i } else { r.below(deep) }, r.uni(-1.0, 1.0) as f32)).collect()
                };
                let z = list(1.0);
                let mut p = list(0.3);
                let s: f32 = p.iter().map(|p| p.1.abs()).sum();
                for p in &mut p {
                    p.1 *= 0.9 / s.max(0.9);
                }
                (Set::Gen(z, p), deep + 2000)
            }
            set => (set, 100_000),
        }
    }

    pub fn make(&self) -> Obj {
        match self {
            Set::Osc(0, f) => Obj::Sine(Sine::new(*f)),
            Set::Osc(1, f) => Obj::Square(Square::new(*f)),
            Set::Osc(2, f) => Obj::Saw(Sawtooth::new(*f)),
            Set::Osc(_, f) => Obj::Tri(Triangle::new(*f)),
            Set::Res { track, rate, ls, le, speed } => {
                let mut o = MonoResampler::new(mono(track), *rate, *ls, *le);
                if *speed != 1.0 {
                    o.set_playback_speed(*speed);
                }
                Obj::Res(o)
            }
            Set::Wav { track, rate, speed } => {
                let mut o = MonoWav::from_track(*rate, mono(track));
                if *speed != 1.0 {
                    o.get_mut().set_playback_speed(*speed);
                }
                Obj::Wav(o)
            }
            Set::Adsr(a, d, s, r) => Obj::Adsr(ADSR::new(*a, *d, *s, *r)),
            Set::Bp(a, b) => Obj::Bp(BandPass::from_corners((*a, *b))),
            Set::Delay(d) => Obj::Delay(Delay::new(*d)),
            Set::Echo(d, g) => Obj::Echo(Echo::new(*d, *g)),
            Set::Env(a, b) => Obj::Env(bae_rs::modifiers::Envelope::new(*a, *b)),
            Set::Gain(a) => Obj::Gain(Gain::new(*a)),
            Set::Gen(z, p) => Obj::Gen(Generic::new(z.clone(), p.clone())),
            Set::Hp(f, r) => Obj::Hp(HighPass::new(*f, *r)),
            Set::Lp(f, r) => Obj::Lp(LowPass::new(*f, *r)),
            Set::Pass => Obj::Pass(Passthrough::new()),
        }
    }

    pub fn random_op(&self, r: &mut Rng) -> Option<Op> {
        Some(match self {
            Set::Osc(..) => Op::Freq(freq(r)),
            Set::Res { .. } | Set::Wav { .. } => Op::Speed(match r.below(4) {
                0 => 0.5,
                1 => 2.0,
                2 => 1.0,
                _ => r.log_uni(0.01, 20.0),
            }),
            Set::Adsr(..) => Op::Release,
            Set::Bp(..) => {
                let (a, b) = corners(r, 20.0);
                Op::Corners(a, b)
            }
            Set::Gain(_) => Op::Gain(r.sample()),
            Set::Hp(..) | Set::Lp(..) => {
                if r.chance(0.5) {
                    Op::Cutoff(cutoff(r, 20.0))
                } else {
                    Op::Resonance(resonance(r).min(0.95))
                }
            }
            _ => return None,
        })
    }

    pub fn apply(&mut self, op: &Op) {
        match (self, op) {
            (Set::Osc(_, f), Op::Freq(v)) => *f = *v,
            (Set::Res { speed, .. }, Op::Speed(v)) | (Set::Wav { speed, .. }, Op::Speed(v)) => *speed = *v,
            (Set::Bp(a, b), Op::Corners(x, y)) => {
                *a = x.min(*y);
                *b = x.max(*y);
            }
            (Set::Gain(a), Op::Gain(v)) => *a = *v,
            (Set::Hp(f, _), Op::Cutoff(v)) | (Set::Lp(f, _), Op::Cutoff(v)) => *f = *v,
            (Set::Hp(_, r), Op::Resonance(v)) | (Set::Lp(_, r), Op::Resonance(v)) => *r = *v,
            (Set::Adsr(..), Op::Release) => (),
            _ => panic!("operation"),
        }
    }
}

impl Obj {
    pub fn step(&mut self, x: f32) -> f32 {
        match self {
            Obj::Sine(o) => o.process(),
            Obj::Square(o) => o.process(),
            Obj::Saw(o) => o.process(),
            Obj::Tri(o) => o.process(),
            Obj::Res(o) => o.process(),
            Obj::Wav(o) => o.process(),
            Obj::Adsr(o) => o.process(x),
            Obj::Bp(o) => o.process(x),
            Obj::Delay(o) => o.process(x),
            Obj::Echo(o) => o.process(x),
            Obj::Env(o) => o.process(x),
            Obj::Gain(o) => o.process(x),
            Obj::Gen(o) => o.process(x),
            Obj::Hp(o) => o.process(x),
            Obj::Lp(o) => o.process(x),
            Obj::Pass(o) => o.process(x),
        }
    }

    pub fn apply(&mut self, op: &Op) {
        match (self, op) {
            (Obj::Sine(o), Op::Freq(f)) => o.set_frequency(*f),
            (Obj::Square(o), Op::Freq(f)) => o.set_frequency(*f),
            (Obj::Saw(o), Op::Freq(f)) => o.set_frequency(*f),
            (Obj::Tri(o), Op::Freq(f)) => o.set_frequency(*f),
            (Obj::Res(o), Op::Speed(s)) => o.set_playback_speed(*s),
            (Obj::Wav(o), Op::Speed(s)) => o.get_mut().set_playback_speed(*s),
            (Obj::Bp(o), Op::Corners(a, b)) => o.set_corner_frequencies((*a, *b)),
            (Obj::Gain(o), Op::Gain(a)) => o.a = *a,
            (Obj::Hp(o), Op::Cutoff(f)) => o.set_central_frequency(*f),
            (Obj::Lp(o), Op::Cutoff(f)) => o.set_central_frequency(*f),
            (Obj::Hp(o), Op::Resonance(r)) => o.set_resonance(*r),
            (Obj::Lp(o), Op::Resonance(r)) => o.set_resonance(*r),
            (Obj::Adsr(o), Op::Release) => o.release(),
            _ => panic!("operation"),
        }
    }

    /// Reported settings.
    fn report(&self) -> Vec<f64> {
        match self {
            Obj::Sine(o) => vec![o.get_frequency()],
            Obj::Square(o) => vec![o.get_frequency()],
            Obj::Saw(o) => vec![o.get_frequency()],
            Obj::Tri(o) => vec![o.get_frequency()],
            Obj::Res(o) => vec![o.get_playback_speed()],
            Obj::Wav(o) => vec![o.get().get_playback_speed()],
            Obj::Bp(o) => vec![o.get_central_frequency(), o.get_corner_frequencies().0, o.get_corner_frequencies().1],
            Obj::Delay(o) => vec![o.get_delay().as_nanos() as f64],
            Obj::Gain(o) => vec![o.a as f64],
            Obj::Hp(o) => vec![o.get_central_frequency(), o.get_resonance()],
            Obj::Lp(o) => vec![o.get_central_frequency(), o.get_resonance()],
            _ => vec![],
        }
    }
}

fn reports_agree(what: &str, a: &Obj, b: &Obj) -> R {
    let (x, y) = (a.report(), b.report());
    for i in 0..x.len() {
        ensure!(rel(x[i], y[i], 1e-7), "{}: reports {:?} for {:?}", what, x, y);
    }
    Ok(())
}

/// A clone, what it should be equal to, and what has happened to both.
struct Pair {
    clone: Obj,
    fresh: Obj,
    set: Set,
    n: u64,
    changed: bool,
    peak: f64,
    track_peak: f64,
    apart: usize,
}

impl Pair {
    fn new(orig: &Obj, set: &Set, how: &str) -> Result<Pair, Fail> {
        let clone = orig.clone();
        let fresh = set.make();
        reports_agree(how, &clone, &fresh)?;
        let track_peak = match set {
            Set::Res { track, .. } | Set::Wav { track, .. } => peak(track),
            _ => 0.0,
        };
        Ok(Pair { clone, fresh, set: set.clone(), n: 0, changed: false, peak: 0.0, track_peak, apart: 0 })
    }

    fn step(&mut self, what: &str, x: f32) -> R {
        let (y, w) = (self.clone.step(x), self.fresh.step(x));
        self.peak = self.peak.max(w.abs() as f64).max(x.abs() as f64);
        let ok = match &self.set {
            Set::Osc(k, f) if !self.changed => {
                let kind = [Kind::Sine, Kind::Square, Kind::Saw, Kind::Tri][*k];
                if let Err(e) = judge(kind, y, phase(self.n, *f), 3.0 * tau(self.n), false) {
                    return Err(Fail::new(format!("{}: sample {} of the clone at {} Hz: {}", what, self.n, f, e)));
                }
                self.n > 0 || close(y as f64, w as f64, 1e-6)
            }
            // After a retuning: jumps may fall on either side of a sample.
            Set::Osc(..) => {
                self.apart = if close(y as f64, w as f64, 1e-5) { 0 } else { self.apart + 1 };
                self.apart <= 1
            }
            Set::Res { .. } | Set::Wav { .. } => {
                let ok = close(y as f64, w as f64, 1e-5 * self.track_peak + 1e-37);
                if !ok && (y == 0.0 || w == 0.0) {
                    // One may end a step earlier by rounding.
                    self.apart += 1;
                    self.apart <= 1
                } else {
                    ok
                }
            }
            Set::Bp(..) | Set::Hp(..) | Set::Lp(..) => close(y as f64, w as f64, 1e-4 * self.peak + 1e-37),
            Set::Env(..) | Set::Echo(..) | Set::Gen(..) => close(y as f64, w as f64, 3e-5 * self.peak + 1e-37),
            _ => same(y, w) || close(y as f64, w as f64, 3e-7 * self.peak),
        };
        ensure!(ok, "{}: sample {} of the clone is {:e}, of a new one {:e} (settings {})", what, self.n, y, w, brief(&self.set));
        self.n += 1;
        Ok(())
    }
}

fn brief(s: &Set) -> String {
    let s = format!("{:?}", s);
    s.chars().take(300).collect()
}

fn history(c: &mut Case, kind: usize, log: bool, large: bool) -> R {
    let (mut set, most) = if large { Set::large(&mut c.rng, kind) } else { (Set::random(&mut c.rng, kind), 1500) };
    let mut orig = set.make();
    let mut twin = set.make();
    let what = KINDS[kind];
    if log {
        c.desc(format!("{}: {}", what, brief(&set)));
    }
    let mut pairs: Vec<Pair> = Vec::new();
    let warm = c.rng.log_range(1, most.max(4000)) - 1;
    let steps = warm + if large { most } else { c.rng.range(200, most) };
    let opp = if large { *c.rng.pick(&[0.0, 2e-5]) } else { *c.rng.pick(&[0.0, 0.002, 0.02]) };
    let anew = if large { 2e-5 } else { 0.003 };
    let mut cloned = 0u64;
    let mut ops = 0u64;
    let mut x = signal(&mut c.rng, steps);
    if c.rng.chance(0.1) {
        // What the original has been given is no concern of its clones.
        for _ in 0..c.rng.range(1, 5) {
            let i = c.rng.below(steps);
            x[i] = *c.rng.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN, 1e30, 1e-42]);
        }
        c.ev("histories_with_extremes", 1);
    }
    for i in 0..steps {
        // Clone: at the warm point, and now and then later; of the original
        // or of a clone.
        if i == warm || (i > warm && c.rng.chance(anew) && pairs.len() < 4) {
            let p = if pairs.is_empty() || c.rng.chance(0.7) {
                Pair::new(&orig, &set, what)?
            } else {
                let k = c.rng.below(pairs.len());
                Pair::new(&pairs[k].clone, &pairs[k].set, what)?
            };
            pairs.push(p);
            cloned += 1;
            if pairs.len() > 1 && c.rng.chance(0.3) {
                let k = c.rng.below(pairs.len() - 1);
                pairs.remove(k);
            }
        }
        if opp > 0.0 && c.rng.chance(opp) {
            if let Some(op) = set.random_op(&mut c.rng) {
                set.apply(&op);
                orig.apply(&op);
                twin.apply(&op);
                ops += 1;
            }
        }
        // The clones get inputs of their own, at their own pace.
        for p in pairs.iter_mut() {
            for _ in 0..c.rng.below(3) {
                let v = if c.rng.chance(0.1) { 0.0 } else { c.rng.sample() };
                p.step(what, v)?;
                c.events.entry("clone_outputs").and_modify(|n| *n += 1).or_insert(1);
            }
            if opp > 0.0 && c.rng.chance(opp) {
                if let Some(op) = p.set.random_op(&mut c.rng) {
                    p.set.apply(&op);
                    p.clone.apply(&op);
                    p.fresh.apply(&op);
                    p.changed = true;
                    ops += 1;
                }
            }
        }
        let (a, b) = (orig.step(x[i]), twin.step(x[i]));
        ensure!(same(a, b), "{}: output {} of the original is {:e}, {:e} without {} clonings (settings {})", what, i, a, b, cloned, brief(&set));
        if i < 32 {
            c.fold_f(a);
        }
    }
    reports_agree(what, &orig, &twin)?;
    for p in &pairs {
        reports_agree(what, &p.clone, &p.fresh)?;
    }
    c.ev("clones", cloned);
    c.ev("settings_changed", ops);
    c.ev("original_outputs", steps as u64);
    if cloned > 0 {
        c.nontrivial();
    }
    Ok(())
}

fn clones(c: &mut Case) -> R {
    let kind = c.idx as usize % KINDS.len();
    for k in 0..4 {
        history(c, kind, k == 0, false)?;
    }
    Ok(())
}

fn clones_large(c: &mut Case) -> R {
    let kind = c.idx as usize % KINDS.len();
    history(c, kind, true, true)
}

pub const C20: Check = Check {
    id: "C20",
    rule: "each oscillator, resampler (with and without loop), wave player and modifier in turn: random settings, a history of 0 to 4000 samples with setting changes, then clones of it and of its clones, used at their own pace with inputs and setting changes of their own (large family: delays of seconds, tracks of 150000 samples, 400 taps, used to their end); every sample of a clone is compared with a newly constructed object with the settings at that moment (oscillators also with the ideal waveform from phase 0), every sample of the original with a twin that was never cloned (bit for bit), and the reported settings. Non-trivial: at least one clone; distinct by settings and outputs.",
    assumptions: &["clones may differ from new objects by the rounding of recomputed settings (1e-7 to 1e-4 of the peak, a jump or the end of a track one sample earlier)"],
    exhaustive: false,
    fams: &[
        Fam { name: "clones", quick: 84000, thorough: 1500000, run: clones },
        Fam { name: "large", quick: 720, thorough: 12000, run: clones_large },
    ],
};
