//! C33: what runs long stays finite and bounded, dies away after the input
//! has stopped, and holds on to no growing amount of memory.

use crate::alloc;
use crate::c_clone::{Obj, Set, KINDS};
use crate::c_mod::{corners, cutoff, RefBp, Ref3};
use crate::c_snd::real_block;
use crate::ensure;
use crate::rng::*;
use crate::rt::*;
use crate::util::*;
use bae_rs::channels::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sample_format::{Mono, Stereo};
use bae_rs::sounds::*;
use std::collections::VecDeque;
use std::f64::consts::PI;
use std::sync::Arc;
use std::time::Duration;

/// Longest impulse response kept.
const LONGEST: usize = 3_000_000;
/// Growth of memory put up with.
const GROWTH: i64 = 8192;

/// Times that are a clear number of samples.
fn clear(r: &mut Rng, max: usize) -> Duration {
    Duration::from_secs_f64((r.log_range(0, max) as f64 + 0.25) / SR)
}

fn samples(d: Duration) -> usize {
    (d.as_secs_f64() * SR) as usize
}

/// A modifier within its documented range.
fn modifier(r: &mut Rng, kind: usize, far: usize) -> Set {
    match kind {
        9 => Set::Delay(clear(r, far)),
        10 => {
            let d = clear(r, far);
            let g = match r.below(5) {
                0 => *r.pick(&[0.0, 0.5, -0.5, 0.9, 0.99, -0.99, 0.9999, -0.9999]),
                1 => 1.0 - r.log_uni(1e-4, 1.0),
                2 => r.log_uni(1e-4, 1.0) - 1.0,
                _ => r.uni(-0.99, 0.99),
            };
            // Not longer than can be watched.
            let most = (-20.0 * (samples(d).max(1)) as f64 / (LONGEST as f64 * 0.9)).exp();
            Set::Echo(d, if g > most { most } else if g < -most { -most } else { g })
        }
        14 | 15 => {
            let x = match r.below(4) {
                0 => 1.0 - r.log_uni(1e-4, 1.0),
                1 => *r.pick(&[0.0, 0.5, 0.9, 0.99, 0.999]),
                _ => r.f64() * 0.98,
            };
            let fc = cutoff(r, if x < 0.9 { 5.0 } else { 20.0 });
            if kind == 14 { Set::Hp(fc, x) } else { Set::Lp(fc, x) }
        }
        8 => {
            let (a, b) = corners(r, 5.0);
            Set::Bp(a.min(b), a.max(b))
        }
        k => Set::random(r, k),
    }
}

const MODS: [usize; 10] = [7, 8, 9, 10, 11, 12, 13, 14, 15, 16];

/// The ideal linear system of a setting.
enum Ideal {
    Cut(Ref3),
    Bp(RefBp),
    Line(VecDeque<f64>, usize),
    Echo(VecDeque<f64>, f64),
    Fir(Vec<(usize, f64)>, Vec<(usize, f64)>, VecDeque<f64>, VecDeque<f64>),
    Gain(f64),
}

fn ideal(s: &Set) -> Option<Ideal> {
    Some(match s {
        Set::Hp(f, r) => Ideal::Cut(Ref3::new(*f, *r, true)),
        Set::Lp(f, r) => Ideal::Cut(Ref3::new(*f, *r, false)),
        Set::Bp(a, b) => Ideal::Bp(RefBp::new(*a, *b)),
        Set::Delay(d) => Ideal::Line(VecDeque::new(), samples(*d)),
        Set::Echo(d, g) => Ideal::Echo(vec![0.0; samples(*d).max(1)].into(), *g as f32 as f64),
        Set::Gen(z, p) => {
            let w = |v: &VecDeque<(usize, f32)>| v.iter().map(|(n, a)| (*n, *a as f64)).collect::<Vec<_>>();
            let l = z.iter().chain(p.iter()).map(|e| e.0 + 1).max().unwrap_or(0);
            Ideal::Fir(w(z), w(p), vec![0.0; l].into(), vec![0.0; l].into())
        }
        Set::Gain(g) => Ideal::Gain(*g as f64),
        Set::Pass => Ideal::Gain(1.0),
        _ => return None,
    })
}

impl Ideal {
    fn process(&mut self, x: f64) -> f64 {
        match self {
            Ideal::Cut(f) => f.process(x),
            Ideal::Bp(f) => f.process(x),
            Ideal::Line(v, n) => {
                v.push_back(x);
                if v.len() > *n { v.pop_front().unwrap_or(0.0) } else { 0.0 }
            }
            Ideal::Echo(v, g) => {
                let y = v.pop_front().unwrap_or(0.0) * *g + x;
                v.push_back(y);
                y
            }
            Ideal::Fir(z, p, xs, ys) => {
                xs.push_front(x);
                let y = z.iter().map(|(n, a)| a * xs.get(*n).unwrap_or(&0.0)).sum::<f64>() + p.iter().map(|(n, a)| a * ys.get(*n).unwrap_or(&0.0)).sum::<f64>();
                xs.pop_back();
                ys.push_front(y);
                ys.pop_back();
                y
            }
            Ideal::Gain(g) => *g * x,
        }
    }
}

/// How much can come out for inputs in [-1,1], and how much of it is still to
/// come k samples after the last input.
#[derive(Clone)]
enum Tail {
    /// Impulse response and sums of magnitudes of what is left of it.
    Known(Arc<Vec<f32>>, Arc<Vec<f64>>),
    /// Bound, and factor per sample after the input.
    Falls(f64, f64),
}

impl Tail {
    fn at(&self, k: usize) -> f64 {
        match self {
            Tail::Known(_, t) => t.get(k).copied().unwrap_or(0.0),
            Tail::Falls(b, f) => b * f.powf(k as f64),
        }
    }
    fn bound(&self) -> f64 {
        self.at(0)
    }
    /// First time from which on no more than this part of the bound is left.
    fn until(&self, part: f64) -> usize {
        match self {
            Tail::Known(_, t) => {
                let lim = self.bound() * part;
                t.partition_point(|v| *v > lim)
            }
            Tail::Falls(_, f) => if *f <= 0.0 { 1 } else { (part.ln() / f.ln()).ceil() as usize + 1 },
        }
    }
}

/// The response of linear systems one after another.
fn response(sets: &[Set], gain: f64) -> Option<Tail> {
    let mut v: Vec<Ideal> = Vec::new();
    let mut quiet = 4096;
    for s in sets {
        match s {
            Set::Delay(d) | Set::Echo(d, _) => quiet += samples(*d),
            _ => (),
        }
        v.push(ideal(s)?);
    }
    let (mut h, mut at, mut pk) = (Vec::new(), 0, 0.0f64);
    let mut x = 1.0;
    while h.len() < LONGEST {
        let y = gain * v.iter_mut().fold(x, |x, f| f.process(x));
        x = 0.0;
        pk = pk.max(y.abs());
        if y.abs() > 1e-10 * pk {
            at = h.len();
        }
        h.push(y);
        if h.len() - at > quiet {
            break;
        }
    }
    if h.len() == LONGEST {
        return None;
    }
    let mut t = vec![0.0; h.len() + 1];
    for i in (0..h.len()).rev() {
        t[i] = t[i + 1] + h[i].abs();
    }
    Some(Tail::Known(Arc::new(h.iter().map(|v| *v as f32).collect()), Arc::new(t)))
}

fn env_factors(a: f32, b: f32) -> (f64, f64) {
    let f = |f: f32| {
        let t = (PI * f as f64 / SR).tan();
        (t / (1.0 + t), (1.0 - t) / (1.0 + t))
    };
    let ((p, q), (r, s)) = (f(a), f(b));
    let fall = q.abs().max(s.abs());
    if q >= 0.0 && s >= 0.0 {
        (1.0, fall)
    } else {
        (2.0 * p.max(r) / (1.0 - fall), fall)
    }
}

/// One modifier.
fn tail(s: &Set) -> Option<Tail> {
    match s {
        Set::Adsr(..) => Some(Tail::Falls(1.0, 0.0)),
        Set::Env(a, b) => {
            let (m, f) = env_factors(*a, *b);
            Some(Tail::Falls(m, f))
        }
        s => response(std::slice::from_ref(s), 1.0),
    }
}

/// Inputs made to hurt; the previous output may be looked at.
struct Torment {
    rng: Rng,
    worst: Vec<f32>,
    fixed: Vec<f32>,
    /// Kind of the current piece and how much of it has been, and is to come.
    kind: usize,
    done: usize,
    left: usize,
    a: f32,
    period: f64,
    ys: [f32; 2],
    seen: [u64; KINDS_OF_INPUT],
}

const KINDS_OF_INPUT: usize = 14;

impl Torment {
    fn new(r: &mut Rng, t: &Tail) -> Self {
        let worst = match t {
            Tail::Known(h, _) => {
                let n = h.len().min(300_000);
                (0..n).rev().map(|i| if h[i] < 0.0 { -1.0 } else { 1.0 }).collect()
            }
            _ => vec![],
        };
        Torment { rng: Rng::new(r.u64()), worst, fixed: signal(r, 8000), kind: 0, done: 0, left: 0, a: 1.0, period: 2.0, ys: [0.0; 2], seen: [0; KINDS_OF_INPUT] }
    }
    fn next(&mut self, y: f32) -> f32 {
        let r = &mut self.rng;
        if self.left == 0 {
            self.kind = r.below(KINDS_OF_INPUT);
            self.seen[self.kind] += 1;
            self.done = 0;
            self.left = r.log_range(1, 60_000);
            self.a = if r.chance(0.7) { 1.0 } else { r.log_uni(1e-30, 1.0) as f32 };
            self.period = r.log_uni(2.0, 30_000.0);
            match self.kind {
                0 | 1 if self.worst.is_empty() => self.kind = 2,
                0 | 1 => self.left = self.worst.len(),
                _ => (),
            }
        }
        let i = self.done;
        self.done += 1;
        self.left -= 1;
        let sign = |v: f32| if v < 0.0 { -1.0f32 } else { 1.0 };
        let x = match self.kind {
            0 => self.worst[i],
            1 => -self.worst[i],
            2 => self.a,
            3 => if i % 2 == 0 { self.a } else { -self.a },
            4 => if i == 0 { self.a } else { 0.0 },
            5 => self.fixed[i % self.fixed.len()],
            6 => f32::from_bits(r.u32() & 0x807f_ffff),
            7 => 0.0,
            8 => self.a * (2.0 * PI * i as f64 / self.period).sin() as f32,
            9 => self.a * sign((2.0 * PI * i as f64 / self.period).sin() as f32),
            // With and against what has come out.
            10 => sign(y),
            11 => -sign(y),
            12 => sign(y - self.ys[0]) * self.a,
            _ => r.sample(),
        };
        self.ys = [y, self.ys[0]];
        x
    }
}

/// Runs something for long and then without input. The slack is for rounding
/// between the parts of a chain.
fn watch(c: &mut Case, what: &str, t: &Tail, slack: f64, n: usize, late: usize, decays: bool, f: &mut dyn FnMut(f32) -> f32) -> R {
    let bound = t.bound();
    let lim = bound * 1.003 + slack + 1e-30;
    let mut x = Torment::new(&mut c.rng, t);
    let mut y = 0.0f32;
    let (mut pk, mut held) = (0.0f64, None);
    let warm = 20_000.max(n / 10).max(late + 8);
    for i in 0..n {
        y = f(x.next(y));
        let a = y.abs() as f64;
        ensure!(a <= lim, "{}: output {} is {:e}, at most {:e} can come out", what, i, y, bound);
        pk = pk.max(a);
        if i < 50 || i % 5000 == 0 {
            c.fold_f(y);
        }
        if i == warm {
            held = Some(alloc::live());
        }
    }
    // An impulse that only denormals follow, or silence.
    let denormal = c.rng.chance(0.2);
    let last = t.until(1e-6);
    let mut worst = 0.0f64;
    if decays {
        let m = 2 * last + 100 + late;
        for k in 0..m {
            let x = if denormal { f32::from_bits(c.rng.u32() & 0x807f_ffff) } else { 0.0 };
            y = f(x);
            let rest = t.at(k.saturating_sub(late)) * 1.003 + 2e-4 * bound + slack + 1e-30;
            ensure!((y.abs() as f64) <= rest, "{}: {} samples after the last input {:e} comes out, at most {:e} of {:e} is left", what, k + 1, y, rest, bound);
            if k > m - 50 {
                worst = worst.max(y.abs() as f64);
            }
        }
        ensure!(worst <= 1e-5 * bound + 0.01 * slack + 1e-30, "{}: {:e} of {:e} is left {} samples after the last input", what, worst, bound, m);
        c.ev("died_away", 1);
        c.ev("samples_after_input", m as u64);
    }
    if let Some(h) = held {
        let g = alloc::live() - h;
        ensure!(g <= GROWTH, "{}: {} more bytes are held after {} more samples", what, g, n - warm);
        c.ev("memory_compared", 1);
    }
    c.ev("samples", n as u64);
    c.ev("input_pieces", x.seen.iter().sum());
    if pk > 0.9 * bound {
        c.ev("within_10_percent_of_bound", 1);
    }
    Ok(())
}

fn clip(s: &str) -> String {
    s.chars().take(200).collect()
}

fn one(c: &mut Case) -> R {
    let kind = MODS[c.idx as usize % MODS.len()];
    let far = *c.rng.pick(&[10, 300, 10_000]);
    let s = modifier(&mut c.rng, kind, far);
    let t = match tail(&s) {
        Some(t) => t,
        None => return Ok(()),
    };
    let n = c.rng.log_range(1000, c.t(300_000, 3_000_000));
    let what = clip(&format!("{} {:?}", KINDS[kind], s));
    let mut o = s.make();
    c.desc(format!("{}, {} samples", what, n));
    watch(c, &what, &t, 0.0, n, 3, true, &mut |x| o.step(x))?;
    c.nontrivial();
    Ok(())
}

fn chain(c: &mut Case) -> R {
    let n = c.rng.range(1, 5);
    let far = *c.rng.pick(&[10, 100, 1000]);
    let mut sets: Vec<Set> = Vec::new();
    for _ in 0..n {
        let k = *c.rng.pick(&MODS);
        sets.push(modifier(&mut c.rng, k, far));
    }
    let (gi, go) = (c.rng.uni(-1.0, 1.0), c.rng.uni(-1.0, 1.0));
    let generator = c.rng.chance(0.3);
    let mut parts = Vec::new();
    for s in &sets {
        match tail(s) {
            Some(t) => parts.push(t),
            None => return Ok(()),
        }
    }
    // As a whole if it is linear, else part by part.
    let whole = response(&sets, (gi * go).abs());
    let (t, decays) = match whole {
        Some(t) if !generator => (t, true),
        _ => (Tail::Falls(parts.iter().map(|t| t.bound()).product::<f64>() * go.abs() * if generator { 1.0 } else { gi.abs() }, 1.0), false),
    };
    let mut list: Vec<BlockSP> = sets.iter().map(real_block).collect();
    let mut name = String::new();
    let first = if generator {
        let k = c.rng.below(7);
        let s = Set::random(&mut c.rng, k);
        name = format!("{} into ", KINDS[k]);
        real_block(&s)
    } else {
        list.remove(0)
    };
    let mut s = SimpleSound::new(gi, go, first);
    s.extend_modifiers(list);
    let n = c.rng.log_range(1000, c.t(200_000, 2_000_000));
    let what = clip(&format!("sound of {}{:?}", name, sets));
    c.desc(format!("{}, gains {} {}, {} samples", what, gi, go, n));
    let late = 3 * sets.len();
    let slack = 1e-6 * parts.iter().map(|t| t.bound().max(1e-3)).product::<f64>() * (gi * go).abs() * sets.len() as f64;
    watch(c, &what, &t, slack, n, late, decays, &mut |x| s.process(x))?;
    if !decays && !generator && go != 0.0 {
        // Each part gets what the part before still gives.
        let m: usize = parts.iter().map(|t| t.until(1e-7) + 10).sum();
        if m < 2 * LONGEST {
            let mut y = 0.0;
            for _ in 0..2 * m {
                y = s.process(0.0);
            }
            ensure!((y.abs() as f64) <= 1e-5 * t.bound() + 1e-30, "{}: {:e} of {:e} is left {} samples after the last input", what, y, t.bound(), 2 * m);
            c.ev("died_away", 1);
            c.ev("samples_after_input", 2 * m as u64);
        }
    }
    c.ev("sounds", 1);
    c.nontrivial();
    Ok(())
}

struct Scaled(Obj, f32);
impl Modifier for Scaled {
    fn process(&mut self, x: f32) -> f32 {
        self.0.step(x * self.1)
    }
}

/// Graphs, feedback included, in which no block gives more than 0.8 times the
/// largest of what it gets.
fn graph(c: &mut Case) -> R {
    let b = c.rng.range(1, 8);
    let far = *c.rng.pick(&[5, 50, 500]);
    let (mut sets, mut tails) = (Vec::new(), Vec::new());
    while sets.len() < b {
        let k = *c.rng.pick(&MODS);
        let mut s = modifier(&mut c.rng, k, far);
        if let Set::Hp(f, r) | Set::Lp(f, r) = &mut s {
            *f = f.max(100.0);
            *r = r.min(0.9);
        }
        if let Set::Echo(_, g) = &mut s {
            *g = g.max(-0.95).min(0.95);
        }
        if let Some(t) = tail(&s) {
            sets.push(s);
            tails.push(t);
        }
    }
    let n = b + 2;
    let mut edges = std::collections::BTreeSet::new();
    if c.rng.chance(0.7) {
        // From the input to the output through all.
        let mut p: Vec<usize> = (2..n).collect();
        c.rng.shuffle(&mut p);
        let mut a = 0;
        for k in p {
            edges.insert((a, k));
            a = k;
        }
        edges.insert((a, 1));
    }
    for _ in 0..c.rng.range(1, 2 * n) {
        edges.insert((c.rng.below(n), c.rng.below(n)));
    }
    let into = |k: usize| edges.iter().filter(|e| e.1 == k).count() as f64;
    let gain = |k: usize, r: &mut Rng| {
        let g = 0.8 / into(k).max(1.0);
        g * *r.pick(&[1.0, -1.0, 1.0, 0.5, -0.3])
    };
    let (gi, go) = (gain(0, &mut c.rng), gain(1, &mut c.rng));
    let mut s = ComplexSound::new(gi, go);
    let mut ids = vec![s.get_input_gain(), s.get_output_gain()];
    for k in 0..b {
        let g = gain(k + 2, &mut c.rng) / tails[k].bound().max(1e-3) * 0.999;
        ids.push(s.add_block(Arc::new(StandardBlock::from_modifier(Scaled(sets[k].make(), g as f32)))));
    }
    for (x, y) in &edges {
        s.add_connection(ids[*x], ids[*y]);
    }
    let bound = gi.abs() / (1.0 - 0.8) * 1.01;
    let len = c.rng.log_range(1000, c.t(60_000, 600_000));
    let what = clip(&format!("complex sound of {:?}, {:?}", sets, edges));
    c.desc(format!("{}, {} samples", what, len));
    watch(c, &what, &Tail::Falls(bound, 1.0), 0.0, len, 0, false, &mut |x| s.process(x))?;
    let span = tails.iter().map(|t| t.until(0.02)).max().unwrap_or(0) + n + 3;
    if span < c.t(3_000, 30_000) {
        let mut y = 0.0f64;
        for k in 0..80 * span {
            let v = s.process(0.0).abs() as f64;
            if k >= 79 * span {
                y = y.max(v);
            }
        }
        ensure!(y <= 1e-4 * bound + 1e-30, "{}: {:e} of {:e} is left {} samples after the last input", what, y, bound, 80 * span);
        c.ev("died_away", 1);
        c.ev("samples_after_input", 80 * span as u64);
    }
    c.ev("sounds", 1);
    c.ev("connections", edges.len() as u64);
    c.nontrivial();
    Ok(())
}

/// Channels of generators through modifiers.
fn channel(c: &mut Case) -> R {
    let stereo = c.rng.chance(0.5);
    let gain = c.rng.uni(-1.0, 1.0);
    let k = c.rng.range(1, 6);
    let mut bound = 0.0;
    let mut v: Vec<Arc<dyn Sound>> = Vec::new();
    let mut names = Vec::new();
    for _ in 0..k {
        let g = c.rng.below(7);
        let gen = Set::random(&mut c.rng, g);
        let (mut p, mut list) = (1.0, vec![]);
        for _ in 0..c.rng.below(3) {
            let kind = *c.rng.pick(&MODS);
            let m = modifier(&mut c.rng, kind, 300);
            if let Some(t) = tail(&m) {
                p *= t.bound();
                list.push(m);
            }
        }
        let go = c.rng.uni(-1.0, 1.0);
        bound += p * go.abs();
        names.push(format!("{}+{}", KINDS[g], list.len()));
        let mut s = SimpleSound::new(c.rng.uni(-1.0, 1.0), go, real_block(&gen));
        s.extend_modifiers(list.iter().map(real_block).collect());
        v.push(Arc::new(s));
    }
    bound *= gain.abs();
    let ms = c.rng.range(1, 20);
    let rounds = c.t(200, 3000);
    c.desc(format!("{} channel of {:?}, gain {}, {} times {} ms", if stereo { "stereo" } else { "mono" }, names, gain, rounds, ms));
    let lim = bound * 1.003 + 1e-30;
    let n = 48 * ms;
    let run = |c: &mut Case, go: &mut dyn FnMut() -> Vec<f32>| -> R {
        let mut held = 0;
        for i in 0..rounds {
            let v = go();
            ensure!(v.len() == n || v.len() + 1 == n, "{} samples instead of {}", v.len(), n);
            for y in &v {
                ensure!((y.abs() as f64) <= lim, "round {}: {:e} comes out, at most {:e} can", i, y, bound);
            }
            if i % 50 == 0 {
                c.fold_f(v[v.len() - 1]);
            }
            if i == rounds / 4 {
                held = alloc::live();
            }
            c.ev("samples", v.len() as u64);
        }
        let g = alloc::live() - held;
        ensure!(g <= GROWTH, "{} more bytes are held after {} more rounds", g, rounds - rounds / 4);
        c.ev("memory_compared", 1);
        Ok(())
    };
    if stereo {
        let mut ch = StandardChannel::<Stereo>::new(gain);
        ch.set_process_time(Duration::from_millis(ms as u64));
        for mut s in v {
            ch.add_sound(&mut s);
        }
        run(c, &mut || {
            ch.process();
            ch.get_output().iter().map(|s| if s.left.abs() >= s.right.abs() { s.left } else { s.right }).collect()
        })?;
    } else {
        let mut ch = StandardChannel::<Mono>::new(gain);
        ch.set_process_time(Duration::from_millis(ms as u64));
        for mut s in v {
            ch.add_sound(&mut s);
        }
        run(c, &mut || {
            ch.process();
            ch.get_output().iter().map(|s| s.mono).collect()
        })?;
    }
    c.ev("channels", 1);
    c.nontrivial();
    Ok(())
}

/// Everything for as long as there is time for.
fn endless(c: &mut Case) -> R {
    let n = c.t(2_000_000, 120_000_000);
    let k = c.idx as usize % (MODS.len() + 5);
    if k < MODS.len() {
        let s = modifier(&mut c.rng, MODS[k], 48_000);
        let t = match tail(&s) {
            Some(t) => t,
            None => return Ok(()),
        };
        let n = if MODS[k] == 13 { n / 4 } else { n };
        let what = clip(&format!("{} {:?}", KINDS[MODS[k]], s));
        c.desc(format!("{}, {} samples", what, n));
        let mut o = s.make();
        watch(c, &what, &t, 0.0, n, 3, true, &mut |x| o.step(x))?;
    } else {
        let kind = k - MODS.len();
        let mut g: Box<dyn Generator> = match kind {
            0 => Box::new(Sine::new(freq(&mut c.rng))),
            1 => Box::new(Square::new(freq(&mut c.rng))),
            2 => Box::new(Sawtooth::new(freq(&mut c.rng))),
            3 => Box::new(Triangle::new(freq(&mut c.rng))),
            _ => Box::new(Noise::new()),
        };
        let what = ["sine", "square", "sawtooth", "triangle", "noise"][kind];
        c.desc(format!("{}, {} samples", what, n));
        let held = alloc::live();
        let mut pk = 0.0f32;
        for i in 0..n {
            let y = g.process();
            ensure!(y.abs() <= 1.0 + 1e-6, "{}: output {} is {:e}", what, i, y);
            pk = pk.max(y.abs());
            if i < 50 {
                c.fold_f(y);
            }
        }
        ensure!(alloc::live() - held <= GROWTH, "{}: {} more bytes are held", what, alloc::live() - held);
        c.ev("memory_compared", 1);
        c.ev("samples", n as u64);
    }
    c.nontrivial();
    Ok(())
}

/// What can be done to an object over and over.
const LIVES: [&str; 14] = [
    "left alone", "muted", "paused", "muted and paused", "toggled", "registered and unregistered", "given gains", "looked at", "cloned",
    "connected and disconnected", "given sounds that are removed again", "given process times", "retuned", "primed many times",
];

/// One way of life for long: no memory is gathered.
fn life(c: &mut Case) -> R {
    let what = c.rng.below(5);
    let mut lives: Vec<usize> = vec![c.rng.below(LIVES.len())];
    while c.rng.chance(0.3) {
        lives.push(c.rng.below(LIVES.len()));
    }
    let has = |k: usize| lives.contains(&k);
    let n = c.t(20_000, 200_000);
    let names: Vec<&str> = lives.iter().map(|k| LIVES[*k]).collect();
    let of = ["simple sound", "complex sound", "mono channel", "stereo channel", "single object"][what];
    c.desc(format!("{} {:?}, {} calls", of, names, n));
    let mut r = c.rng.clone();
    let mut silent = has(0) && r.chance(0.5);
    let mut sum = 0.0f32;
    let mut settings = 0u64;
    // The object, kept in a closure that does one round.
    let mut round: Box<dyn FnMut(&mut Rng, u64) -> f32> = match what {
        0 | 1 => {
            enum S {
                Simple(SimpleSound),
                Complex(ComplexSound, Vec<GraphNode>),
            }
            let mut sets: Vec<Set> = Vec::new();
            for _ in 0..r.range(1, 4) {
                let k = r.range(7, 17);
                sets.push(Set::random(&mut r, k));
            }
            let mut s = if what == 0 {
                let k = r.below(7);
                let mut s = SimpleSound::new(0.5, 0.5, real_block(&Set::random(&mut r, k)));
                s.extend_modifiers(sets.iter().map(real_block).collect());
                S::Simple(s)
            } else {
                let mut s = ComplexSound::new(0.5, 0.5);
                let mut ids = vec![s.get_input_gain(), s.get_output_gain()];
                for m in &sets {
                    ids.push(s.add_block(real_block(m)));
                }
                for k in 2..ids.len() {
                    s.add_connection(ids[0], ids[k]);
                    s.add_connection(ids[k], ids[1]);
                }
                S::Complex(s, ids)
            };
            {
                let d: &mut dyn Sound = match &mut s {
                    S::Simple(s) => s,
                    S::Complex(s, _) => s,
                };
                if has(1) || has(3) {
                    d.toggle_mute();
                }
                if has(2) || has(3) {
                    d.toggle_pause();
                }
            }
            let lives = lives.clone();
            Box::new(move |r, i| {
                for l in &lives {
                    match (l, &mut s) {
                        (4, S::Simple(s)) => if i % 2 == 0 { s.toggle_mute() } else { s.toggle_pause() },
                        (4, S::Complex(s, _)) => if i % 2 == 0 { s.toggle_mute() } else { s.toggle_pause() },
                        (5, S::Simple(s)) => if i % 2 == 0 { s.register(i as usize) } else { s.unregister() },
                        (5, S::Complex(s, _)) => if i % 2 == 0 { s.register(i as usize) } else { s.unregister() },
                        (6, S::Simple(s)) => {
                            s.set_input_gain(r.uni(-1.0, 1.0));
                            s.set_output_gain(r.uni(-1.0, 1.0));
                        }
                        (7, S::Simple(s)) => {
                            let _ = (s.get_input_gain(), s.get_output_gain(), s.is_muted(), s.is_paused(), s.get_id());
                        }
                        (7, S::Complex(s, _)) => {
                            let _ = (s.get_nodes(), s.get_input_gain(), s.is_muted(), s.is_paused(), s.get_id());
                        }
                        // The older or the newer one goes on.
                        (8, S::Simple(s)) => {
                            let t = s.clone();
                            if r.chance(0.5) {
                                *s = t;
                            }
                        }
                        (8, S::Complex(s, _)) => {
                            let t = s.clone();
                            if r.chance(0.5) {
                                *s = t;
                            }
                        }
                        (9, S::Complex(s, ids)) => {
                            let (a, b) = (*r.pick(ids), *r.pick(ids));
                            if r.chance(0.5) {
                                s.add_connection(a, b);
                            } else {
                                s.remove_connection(a, b);
                            }
                        }
                        _ => (),
                    }
                }
                let x = if silent { 0.0 } else { r.sample() };
                match &mut s {
                    S::Simple(s) => s.process(x),
                    S::Complex(s, _) => s.process(x),
                }
            })
        }
        2 | 3 => {
            enum C {
                Mono(StandardChannel<Mono>),
                Stereo(StandardChannel<Stereo>),
            }
            let sound = |r: &mut Rng| -> Arc<dyn Sound> {
                let k = r.below(7);
                Arc::new(SimpleSound::new(1.0, 0.5, real_block(&Set::random(r, k))))
            };
            let mut ch = if what == 2 { C::Mono(StandardChannel::new(0.5)) } else { C::Stereo(StandardChannel::new(0.5)) };
            for _ in 0..r.below(4) {
                let mut s = sound(&mut r);
                if has(1) || has(2) || has(3) {
                    if let Some(s) = Arc::get_mut(&mut s) {
                        if !has(2) {
                            s.toggle_mute();
                        }
                        if !has(1) {
                            s.toggle_pause();
                        }
                    }
                }
                match &mut ch {
                    C::Mono(c) => c.add_sound(&mut s),
                    C::Stereo(c) => c.add_sound(&mut s),
                }
            }
            let lives = lives.clone();
            let mut first = true;
            Box::new(move |r, _| {
                if first {
                    first = false;
                    let d = Duration::from_micros(100);
                    match &mut ch {
                        C::Mono(c) => c.set_process_time(d),
                        C::Stereo(c) => c.set_process_time(d),
                    }
                }
                for l in &lives {
                    match (l, &mut ch) {
                        (6, C::Mono(c)) => c.set_gain(r.uni(-1.0, 1.0)),
                        (6, C::Stereo(c)) => c.set_gain(r.uni(-1.0, 1.0)),
                        (8, C::Mono(c)) => {
                            let d = c.clone();
                            if r.chance(0.5) {
                                *c = d;
                            }
                        }
                        (8, C::Stereo(c)) => {
                            let d = c.clone();
                            if r.chance(0.5) {
                                *c = d;
                            }
                        }
                        (10, C::Mono(c)) => {
                            let mut s = sound(r);
                            c.add_sound(&mut s);
                            let id = s.get_id();
                            drop(s);
                            c.process();
                            c.remove_sound(id.unwrap_or(0));
                        }
                        (10, C::Stereo(c)) => {
                            let mut s = sound(r);
                            c.add_sound(&mut s);
                            let id = s.get_id();
                            drop(s);
                            c.process();
                            c.remove_sound(id.unwrap_or(0));
                        }
                        (11, C::Mono(c)) => c.set_process_time(Duration::from_micros(r.below(200) as u64)),
                        (11, C::Stereo(c)) => c.set_process_time(Duration::from_micros(r.below(200) as u64)),
                        _ => (),
                    }
                }
                match &mut ch {
                    C::Mono(c) => {
                        c.process();
                        c.get_output().first().map_or(0.0, |s| s.mono)
                    }
                    C::Stereo(c) => {
                        c.process();
                        c.get_output().first().map_or(0.0, |s| s.left)
                    }
                }
            })
        }
        _ => {
            let k = r.below(KINDS.len());
            let mut set = Set::random(&mut r, k);
            let mut o = set.make();
            let mut b = real_block(&set);
            let lives = lives.clone();
            Box::new(move |r, _| {
                let mut y = 0.0;
                for l in &lives {
                    match l {
                        8 => {
                            let t = o.clone();
                            if r.chance(0.5) {
                                o = t;
                            }
                        }
                        12 => {
                            if let Some(op) = set.random_op(r) {
                                set.apply(&op);
                                o.apply(&op);
                            }
                        }
                        13 => {
                            if let Some(b) = Arc::get_mut(&mut b) {
                                for _ in 0..r.below(20) {
                                    b.prime_input(0.01);
                                }
                                if r.chance(0.5) {
                                    y += b.process();
                                }
                            }
                        }
                        _ => (),
                    }
                }
                let x = if silent { 0.0 } else { r.sample() };
                y + o.step(x)
            })
        }
    };
    let mut held = alloc::live();
    let warm = n / 5;
    for i in 0..n {
        let y = round(&mut c.rng, i);
        if y != 0.0 && y.is_finite() {
            sum += y;
            settings += 1;
        }
        if i == warm {
            held = alloc::live();
        }
    }
    let g = alloc::live() - held;
    // Identifiers given out may be kept account of.
    let kept = if has(10) { 64 * n as i64 } else { 0 };
    ensure!(g <= GROWTH + kept, "{} {:?}: {} more bytes are held after {} more calls", of, names, g, n - warm);
    silent = settings == 0;
    c.fold_f(sum);
    c.fold(what as u64 * 100 + lives[0] as u64);
    c.ev("memory_compared", 1);
    c.ev("lives", lives.len() as u64);
    c.ev("samples", n);
    c.ev("silent_lives", silent as u64);
    c.nontrivial();
    Ok(())
}

pub const C33: Check = Check {
    id: "C33",
    rule: "every modifier at random settings (resonance up to 0.9999, feedback up to +-0.9999, cutoffs from 5 Hz), sounds of up to five modifiers with or without a generator, complex sounds of up to eight modifiers with feedback of loop gain below 0.8, and channels of up to six sounds, for 1e3 to 3e5 (thorough 3e6; endless family 2e6 and 1.2e8) samples of input made to hurt: steps, impulses, alternation, silence, denormals, noise, sines and square waves of all periods, inputs that follow or oppose the previous output, and the inputs that drive the setting's ideal impulse response (computed in f64 by another structure) to its largest sum. Every output must stay within that sum; k samples after the last input within what is left of the response after k samples, and end at 1e-5 of the bound (nonlinear ones and graphs: bounds from the parts). Bytes held by the thread are compared early and late in each run, and (life family) over 20000 (thorough 200000) calls on sounds, channels and objects that are muted, paused, toggled, registered, looked at, cloned, reconnected, given gains, sounds and process times, retuned or primed all the time. Non-trivial: a run was watched to its end; distinct by settings and outputs.",
    assumptions: &["0.3 percent of the bound is left for single precision"],
    exhaustive: false,
    fams: &[
        Fam { name: "one", quick: 1200, thorough: 6000, run: one },
        Fam { name: "chain", quick: 600, thorough: 3000, run: chain },
        Fam { name: "graph", quick: 600, thorough: 3000, run: graph },
        Fam { name: "channel", quick: 120, thorough: 600, run: channel },
        Fam { name: "life", quick: 700, thorough: 6000, run: life },
        Fam { name: "endless", quick: 30, thorough: 60, run: endless },
    ],
};
