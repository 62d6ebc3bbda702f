//! C21 blocks, C22 simple sounds, C23 and C24 complex sounds, C25 pausing and
//! muting. Probe components write down every call the sounds make.

use crate::c_clone::{Set, KINDS};
use crate::ensure;
use crate::rng::*;
use crate::rt::*;
use crate::util::*;
use bae_rs::generators::Generator;
use bae_rs::modifiers::Modifier;
use bae_rs::sounds::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------- C21

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Gen(f32),
    Mod(f32, f32),
    Inter(f32, f32, f32),
}

type Log<T> = Rc<RefCell<Vec<T>>>;

struct PGen {
    log: Log<Ev>,
    rng: Rng,
}
impl Generator for PGen {
    fn process(&mut self) -> f32 {
        let y = value(&mut self.rng);
        self.log.borrow_mut().push(Ev::Gen(y));
        y
    }
}

struct PMod {
    log: Log<Ev>,
    rng: Rng,
}
impl Modifier for PMod {
    fn process(&mut self, x: f32) -> f32 {
        let y = value(&mut self.rng);
        self.log.borrow_mut().push(Ev::Mod(x, y));
        y
    }
}

/// Multiples of 1/64, which add up exactly, never zero.
fn dyadic(r: &mut Rng) -> f32 {
    let v = r.range(1, 512) as f32 / 64.0;
    if r.chance(0.5) {
        v
    } else {
        -v
    }
}

fn value(r: &mut Rng) -> f32 {
    match r.below(12) {
        0 => 0.0,
        1 => r.uni(-1e6, 1e6) as f32,
        2 => f32::from_bits(r.u32() & 0x807f_ffff),
        3 | 4 => r.sample(),
        _ => dyadic(r),
    }
}

fn block(c: &mut Case) -> R {
    let log: Log<Ev> = Rc::new(RefCell::new(Vec::new()));
    let kind = c.rng.below(6);
    let (gs, ms, is) = (c.rng.u64(), c.rng.u64(), c.rng.u64());
    let g = PGen { log: log.clone(), rng: Rng::new(gs) };
    let m = PMod { log: log.clone(), rng: Rng::new(ms) };
    let l = log.clone();
    let mut ir = Rng::new(is);
    let name = ["interactor", "default interactor", "generator passed", "modifier passed", "from_generator", "from_modifier"][kind];
    let mut b = match kind {
        0 => StandardBlock::new(
            g,
            m,
            Arc::new(move |a, b| {
                let y = value(&mut ir);
                l.borrow_mut().push(Ev::Inter(a, b, y));
                y
            }),
        ),
        1 => StandardBlock::new(g, m, StandardBlock::default_interactor()),
        2 => StandardBlock::new(g, m, StandardBlock::generator_passthrough()),
        3 => StandardBlock::new(g, m, StandardBlock::modifier_passthrough()),
        4 => StandardBlock::from_generator(g),
        _ => StandardBlock::from_modifier(m),
    };
    ensure!(log.borrow().is_empty(), "{}: building a block already used its parts", name);
    let ticks = c.rng.range(50, 400);
    let exact = c.rng.chance(0.6);
    let style = c.rng.below(3);
    for t in 0..ticks {
        let n = match style {
            0 => 1,
            1 => c.rng.below(4),
            _ => c.rng.log_range(0, 60),
        };
        let (mut sum, mut mag) = (0.0f64, 0.0f64);
        for _ in 0..n {
            let x = if exact { dyadic(&mut c.rng) } else { value(&mut c.rng) };
            b.prime_input(x);
            sum += x as f64;
            mag += x.abs() as f64;
        }
        ensure!(log.borrow().is_empty(), "{}: priming used the parts: {:?}", name, log.borrow());
        // The parts can be reached in between.
        if c.rng.chance(0.01) && kind != 5 {
            let y = Arc::get_mut(b.get_g_mut()).map(|g| g.process());
            let l: Vec<Ev> = log.borrow_mut().drain(..).collect();
            ensure!(y.is_some() && l == [Ev::Gen(y.unwrap_or(0.0))], "{}: get_g_mut doesn't give the generator", name);
            c.ev("direct_uses", 1);
        }
        if c.rng.chance(0.01) && kind != 4 {
            let y = Arc::get_mut(b.get_m_mut()).map(|m| m.process(7.5));
            let l: Vec<Ev> = log.borrow_mut().drain(..).collect();
            ensure!(y.is_some() && l == [Ev::Mod(7.5, y.unwrap_or(0.0))], "{}: get_m_mut doesn't give the modifier", name);
            c.ev("direct_uses", 1);
        }
        let y = b.process();
        let l: Vec<Ev> = log.borrow_mut().drain(..).collect();
        let gens: Vec<f32> = l.iter().filter_map(|e| if let Ev::Gen(y) = e { Some(*y) } else { None }).collect();
        let mods: Vec<(f32, f32)> = l.iter().filter_map(|e| if let Ev::Mod(x, y) = e { Some((*x, *y)) } else { None }).collect();
        let inters: Vec<(f32, f32, f32)> = l.iter().filter_map(|e| if let Ev::Inter(a, b, y) = e { Some((*a, *b, *y)) } else { None }).collect();
        ensure!(gens.len() == (kind != 5) as usize, "{}: tick {} asked the generator {} times: {:?}", name, t, gens.len(), l);
        ensure!(mods.len() == (kind != 4) as usize, "{}: tick {} used the modifier {} times: {:?}", name, t, mods.len(), l);
        if let Some((x, _)) = mods.first() {
            let tol = if exact { 0.0 } else { mag * 1.3e-7 * n as f64 };
            ensure!(close(*x as f64, sum, tol), "{}: tick {}: the modifier got {:e} for inputs adding up to {:e}", name, t, x, sum);
        }
        let want = match kind {
            0 => {
                ensure!(inters.len() == 1, "tick {} called the interactor {} times", t, inters.len());
                ensure!(matches!(l.last(), Some(Ev::Inter(..))), "tick {} called the interactor too early: {:?}", t, l);
                let (a, b2, y) = inters[0];
                ensure!(a == gens[0] && b2 == mods[0].1, "tick {}: the interactor got ({}, {}) for generator {} and modifier {}", t, a, b2, gens[0], mods[0].1);
                y
            }
            1 => gens[0] * mods[0].1,
            2 | 4 => gens[0],
            _ => mods[0].1,
        };
        let ok = if kind == 1 { close(y as f64, want as f64, want.abs() as f64 * 1.3e-7) || same(y, want) } else { same(y, want) };
        ensure!(ok, "{}: tick {} gives {:e} for {:e} ({:?})", name, t, y, want, l);
        c.fold_f(y);
        c.ev("primed_inputs", n as u64);
    }
    c.ev("ticks", ticks as u64);
    c.desc(format!("{} block, {} ticks, {} inputs per tick", name, ticks, ["one", "0 to 3", "0 to 60"][style]));
    c.nontrivial();
    Ok(())
}

/// Blocks of real components against the same components on their own.
fn block_real(c: &mut Case) -> R {
    use bae_rs::generators::{FreqMod, Sawtooth, Sine, Square, Triangle};
    use bae_rs::modifiers::*;
    let f = freq(&mut c.rng);
    let k = c.rng.below(4);
    let fc = c.rng.log_uni(50.0, 20000.0);
    let mut g1: Box<dyn Generator>;
    macro_rules! mk {
        ($g:ty) => {{
            g1 = Box::new(<$g>::new(f));
            let i = StandardBlock::default_interactor();
            match c.rng.below(3) {
                0 => (StandardBlock::new(<$g>::new(f), LowPass::new(fc, 0.3), i), 0),
                1 => (StandardBlock::new(<$g>::new(f), Echo::new(std::time::Duration::from_millis(2), 0.5), i), 1),
                _ => (StandardBlock::from_generator(<$g>::new(f)), 2),
            }
        }};
    }
    let (mut b, m) = match k {
        0 => mk!(Sine),
        1 => mk!(Square),
        2 => mk!(Sawtooth),
        _ => mk!(Triangle),
    };
    let mut m1: Box<dyn Modifier> = match m {
        0 => Box::new(LowPass::new(fc, 0.3)),
        _ => Box::new(Echo::new(std::time::Duration::from_millis(2), 0.5)),
    };
    for t in 0..2000 {
        let x = c.rng.sample();
        b.prime_input(x);
        let y = b.process();
        let gs = g1.process();
        let want = if m == 2 { gs } else { gs * m1.process(x) };
        ensure!(close(y as f64, want as f64, 1.3e-7 * want.abs() as f64), "tick {} gives {} for {}", t, y, want);
        c.fold_f(y);
    }
    c.ev("ticks", 2000);
    c.desc(format!("{} at {} Hz with modifier {} in a block", KINDS[k], f, m));
    c.nontrivial();
    Ok(())
}

/// Long runs in which the inputs, the generator or the modifier are silent for
/// long, or none are primed at all.
fn block_idle(c: &mut Case) -> R {
    struct Part {
        last: Rc<RefCell<(u64, f32, f32)>>,
        lull: Lull,
        rng: Rng,
    }
    impl Part {
        fn step(&mut self, x: f32) -> f32 {
            let y = self.lull.next(&mut self.rng, dyadic);
            let mut l = self.last.borrow_mut();
            *l = (l.0 + 1, x, y);
            y
        }
    }
    impl Generator for Part {
        fn process(&mut self) -> f32 {
            self.step(0.0)
        }
    }
    impl Modifier for Part {
        fn process(&mut self, x: f32) -> f32 {
            self.step(x)
        }
    }
    let ticks = c.rng.log_range(10_000, c.t(400_000, 4_000_000));
    let new = |r: &mut Rng| {
        let q = *r.pick(&[0.0, 0.5, 0.9, 1.0]);
        let last: Rc<RefCell<(u64, f32, f32)>> = Default::default();
        (Part { last: last.clone(), lull: Lull::new(ticks, q), rng: Rng::new(r.u64()) }, last)
    };
    let (g, lg) = new(&mut c.rng);
    let (m, lm) = new(&mut c.rng);
    let (mut i, li) = new(&mut c.rng);
    let kind = c.rng.below(6);
    let mut b = match kind {
        0 => StandardBlock::new(
            g,
            m,
            Arc::new(move |a, b| {
                let y = i.step(a);
                i.last.borrow_mut().1 = a + 4096.0 * b;
                y
            }),
        ),
        1 => StandardBlock::new(g, m, StandardBlock::default_interactor()),
        2 => StandardBlock::new(g, m, StandardBlock::generator_passthrough()),
        3 => StandardBlock::new(g, m, StandardBlock::modifier_passthrough()),
        4 => StandardBlock::from_generator(g),
        _ => StandardBlock::from_modifier(m),
    };
    let q = *c.rng.pick(&[0.3, 0.7, 1.0]);
    let mut input = Lull::new(ticks, q);
    let primed = *c.rng.pick(&[0.0, 0.5, 1.0, 1.0]);
    let mut count = Lull::new(ticks, 1.0 - primed);
    let (mut idle, mut longest) = (0u64, 0u64);
    for t in 0..ticks {
        let n = count.next(&mut c.rng, |r| r.range(1, 3) as f32) as usize;
        let mut sum = 0.0f32;
        for _ in 0..n {
            let x = input.next(&mut c.rng, dyadic);
            sum += x;
            b.prime_input(x);
        }
        idle = if sum == 0.0 { idle + 1 } else { 0 };
        longest = longest.max(idle);
        let y = b.process();
        let (g, m, i) = (*lg.borrow(), *lm.borrow(), *li.borrow());
        let k = t as u64 + 1;
        ensure!(g.0 == if kind == 5 { 0 } else { k }, "after {} ticks the generator has been asked {} times", k, g.0);
        ensure!(m.0 == if kind == 4 { 0 } else { k }, "after {} ticks the modifier has been used {} times", k, m.0);
        ensure!(kind == 4 || m.1 == sum, "tick {}: the modifier got {} for inputs adding up to {}", t, m.1, sum);
        let want = match kind {
            0 => {
                ensure!(i.0 == k && i.1 == g.2 + 4096.0 * m.2, "tick {}: the interactor was used {} times, last not with {} and {}", t, i.0, g.2, m.2);
                i.2
            }
            1 => g.2 * m.2,
            2 | 4 => g.2,
            _ => m.2,
        };
        ensure!(close(y as f64, want as f64, 1.3e-7 * want.abs() as f64), "tick {} gives {} for {}", t, y, want);
        if t % 1000 == 0 {
            c.fold_f(y);
        }
    }
    c.ev("ticks", ticks as u64);
    c.ev("idle_stretches_over_a_second", (longest > 48_000) as u64);
    c.desc(format!("block of kind {}, {} ticks, at most {} in a row without input", kind, ticks, longest));
    c.nontrivial();
    Ok(())
}

/// Blocks of modifiers that remember for long.
fn block_memory(c: &mut Case) -> R {
    use bae_rs::modifiers::*;
    use std::time::Duration;
    let ticks = c.rng.log_range(30_000, c.t(300_000, 3_000_000));
    let d = Duration::from_secs_f64(c.rng.log_uni(0.05, ticks as f64 / SR));
    let fc = c.rng.log_uni(1.0, 50.0);
    let e = c.rng.uni(0.9, 1.0);
    let (mut b, mut m): (StandardBlock, Box<dyn Modifier>) = match c.rng.below(4) {
        0 => (StandardBlock::from_modifier(Delay::new(d)), Box::new(Delay::new(d))),
        1 => (StandardBlock::from_modifier(Echo::new(d, e)), Box::new(Echo::new(d, e))),
        2 => (StandardBlock::from_modifier(LowPass::new(fc, 0.9)), Box::new(LowPass::new(fc, 0.9))),
        _ => (StandardBlock::from_modifier(Envelope::new(fc as f32, 1000.0)), Box::new(Envelope::new(fc as f32, 1000.0))),
    };
    let mut input = Lull::new(ticks, 0.8);
    let prime = c.rng.chance(0.5);
    for t in 0..ticks {
        let x = input.next(&mut c.rng, |r| r.sample());
        if x != 0.0 || prime {
            b.prime_input(x);
        }
        let (y, w) = (b.process(), m.process(x));
        ensure!(same(y, w), "tick {} gives {} for {}", t, y, w);
        if t % 1000 == 0 {
            c.fold_f(y);
        }
    }
    c.ev("ticks", ticks as u64);
    c.desc(format!("block of a modifier with a memory of {:?} or {} Hz, {} ticks", d, fc, ticks));
    c.nontrivial();
    Ok(())
}

pub const C21: Check = Check {
    id: "C21",
    rule: "blocks made in all six ways from probe generators, modifiers and interactors that write down every call, 50 to 400 ticks with 0 to 60 primed inputs each, parts also used through the accessors; after each tick the recorded calls must be one generator sample, one modifier call with the sum of the inputs primed since the last tick, then one interactor call with exactly these two results, whose result is the output; blocks of real components against the components alone; runs of up to 4e5 (thorough 4e6) ticks with long stretches without input or with silent parts, and of delays, echoes and filters that remember for long. Every case is non-trivial; distinct by outputs. Days: 1.7e7 to 5e8 (thorough 1e9 to 4e9) samples in one go, compared around every power of two and at random places with a fresh one given only the inputs that can still matter. Any level: values from 2^-90 to 2^96 with infinities and NaN among them, whose sums are exact, must arrive as such.",
    assumptions: &["the parts are exclusively owned by their block"],
    exhaustive: false,
    fams: &[
        Fam { name: "probes", quick: 240000, thorough: 3600000, run: block },
        Fam { name: "real", quick: 16000, thorough: 240000, run: block_real },
        Fam { name: "idle", quick: 3200, thorough: 8000, run: block_idle },
        Fam { name: "memory", quick: 1600, thorough: 4000, run: block_memory },
        Fam { name: "any_level", quick: 40000, thorough: 400000, run: crate::c_ext::block },
        Fam { name: "days", quick: 4, thorough: 8, run: crate::c_long::block },
    ],
};

// ------------------------------------------------------- probe blocks

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bv {
    Prime(usize, f32),
    Proc(usize, f32),
}

/// A block that writes down how it is used.
struct PBlock {
    id: usize,
    log: Log<Bv>,
    rng: Rng,
    input: f32,
    /// 0: outputs of its own; 1: partly the input; 2: scales the input.
    mode: usize,
}

impl Block for PBlock {
    fn prime_input(&mut self, x: f32) {
        self.log.borrow_mut().push(Bv::Prime(self.id, x));
        self.input += x;
    }
    fn process(&mut self) -> f32 {
        let own = dyadic(&mut self.rng);
        let y = match self.mode {
            0 => own,
            1 => own + 0.0625 * self.input,
            _ => 0.0625 * self.input,
        };
        self.input = 0.0;
        self.log.borrow_mut().push(Bv::Proc(self.id, y));
        y
    }
}

fn pblock(id: usize, log: &Log<Bv>, seed: u64, mode: usize) -> BlockSP {
    Arc::new(PBlock { id, log: log.clone(), rng: Rng::new(seed ^ (id as u64 * 7919)), input: 0.0, mode })
}

// ---------------------------------------------------------------- C22

fn gain(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => 0.0,
        1 => *r.pick(&[1.0, -1.0, 0.5, 2.0]),
        2 => r.log_uni(1e-3, 1e3),
        _ => r.uni(-2.0, 2.0),
    }
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 2.5e-7 * b.abs() + 1e-44
}

fn simple(c: &mut Case) -> R {
    let log: Log<Bv> = Rc::new(RefCell::new(Vec::new()));
    let seed = c.rng.u64();
    let mode = c.rng.below(3);
    let (mut ig, mut og) = (gain(&mut c.rng), gain(&mut c.rng));
    let mut s = SimpleSound::new(ig, og, pblock(0, &log, seed, mode));
    let mut n = 1; // blocks
    let max = if c.idx % 50 == 7 { c.rng.range(100, 400) } else { c.rng.range(1, 12) };
    let ticks = c.rng.range(50, if max > 12 { 100 } else { 400 });
    let grow = c.rng.uni(0.0, 0.2);
    let mut settings = 0;
    let first = c.rng.chance(0.5);
    for t in 0..ticks {
        while n < max && (first || c.rng.chance(grow)) {
            if c.rng.chance(0.5) {
                s.add_modifier::<u8>(pblock(n, &log, seed, c.rng.below(3)));
                n += 1;
            } else {
                let k = if max > 12 && c.rng.chance(0.3) { c.rng.below(max) } else { c.rng.below(4) }.min(max - n);
                let v: Vec<BlockSP> = (n..n + k).map(|i| pblock(i, &log, seed, c.rng.below(3))).collect();
                s.extend_modifiers(v);
                n += k;
            }
        }
        if c.rng.chance(0.1) {
            ig = gain(&mut c.rng);
            s.set_input_gain(ig);
            settings += 1;
        }
        if c.rng.chance(0.1) {
            og = gain(&mut c.rng);
            s.set_output_gain(og);
            settings += 1;
        }
        ensure!(near(s.get_input_gain(), ig) && near(s.get_output_gain(), og), "gains {} and {} read back as {} and {}", ig, og, s.get_input_gain(), s.get_output_gain());
        ensure!(log.borrow().is_empty(), "blocks used before processing: {:?}", log.borrow());
        let x = value(&mut c.rng);
        let y = s.process(x);
        let l: Vec<Bv> = log.borrow_mut().drain(..).collect();
        ensure!(l.len() == 2 * n, "sample {} with {} blocks makes these calls: {:?}", t, n, l);
        let mut carry = x as f64 * ig as f32 as f64;
        for b in 0..n {
            match (l[2 * b], l[2 * b + 1]) {
                (Bv::Prime(i, v), Bv::Proc(j, o)) if i == b && j == b => {
                    let ok = if b == 0 { near(v as f64, carry) } else { v as f64 == carry };
                    ensure!(ok, "sample {}: block {} of {} gets {:e} for {:e}", t, b, n, v, carry);
                    carry = o as f64;
                }
                _ => return Err(Fail::new(format!("sample {} with {} blocks makes these calls: {:?}", t, n, l))),
            }
        }
        ensure!(near(y as f64, carry * og as f32 as f64), "sample {}: output {:e} for {:e} times {}", t, y, carry, og);
        c.fold_f(y);
    }
    c.ev("samples", ticks as u64);
    c.ev("block_calls", 2 * (n * ticks) as u64);
    c.ev("gain_changes", settings);
    c.desc(format!("simple sound of {} blocks over {} samples, {} gain changes", n, ticks, settings));
    if n > 1 {
        c.nontrivial();
    }
    Ok(())
}

/// Real blocks against the chain computed by hand.
fn simple_real(c: &mut Case) -> R {
    let (ig, og) = (gain(&mut c.rng), gain(&mut c.rng));
    let n = c.rng.range(1, 6);
    let sets: Vec<Set> = (0..n)
        .map(|i| {
            let k = if i == 0 && c.rng.chance(0.6) { c.rng.below(7) } else { c.rng.range(7, 17) };
            Set::random(&mut c.rng, k)
        })
        .collect();
    let mut by_hand: Vec<_> = sets.iter().map(|s| s.make()).collect();
    let mut bl: Vec<BlockSP> = sets.iter().map(real_block).collect();
    let rest = bl.split_off(1);
    let mut s = SimpleSound::new(ig, og, bl.remove(0));
    s.extend_modifiers(rest);
    for t in 0..3000 {
        let x = c.rng.sample();
        let y = s.process(x);
        let mut v = x * ig as f32;
        for o in by_hand.iter_mut() {
            v = o.step(v);
        }
        let w = v * og as f32;
        ensure!(same(y, w), "sample {} of {:?} is {:e} for {:e}", t, kinds(&sets), y, w);
        c.fold_f(y);
    }
    c.ev("samples", 3000);
    c.desc(format!("simple sound of real blocks {:?}", kinds(&sets)));
    c.nontrivial();
    Ok(())
}

pub fn kinds(s: &[Set]) -> Vec<String> {
    s.iter().map(|s| format!("{:?}", s).chars().take(90).collect()).collect()
}

/// A standard block around a component made from settings.
pub fn real_block(s: &Set) -> BlockSP {
    use crate::c_clone::Obj;
    match s.make() {
        Obj::Sine(o) => Arc::new(StandardBlock::from_generator(o)),
        Obj::Square(o) => Arc::new(StandardBlock::from_generator(o)),
        Obj::Saw(o) => Arc::new(StandardBlock::from_generator(o)),
        Obj::Tri(o) => Arc::new(StandardBlock::from_generator(o)),
        Obj::Res(o) => Arc::new(StandardBlock::from_generator(ResGen(o))),
        Obj::Wav(o) => Arc::new(StandardBlock::from_generator(o)),
        Obj::Adsr(o) => Arc::new(StandardBlock::from_modifier(o)),
        Obj::Bp(o) => Arc::new(StandardBlock::from_modifier(o)),
        Obj::Delay(o) => Arc::new(StandardBlock::from_modifier(o)),
        Obj::Echo(o) => Arc::new(StandardBlock::from_modifier(o)),
        Obj::Env(o) => Arc::new(StandardBlock::from_modifier(o)),
        Obj::Gain(o) => Arc::new(StandardBlock::from_modifier(o)),
        Obj::Gen(o) => Arc::new(StandardBlock::from_modifier(o)),
        Obj::Hp(o) => Arc::new(StandardBlock::from_modifier(o)),
        Obj::Lp(o) => Arc::new(StandardBlock::from_modifier(o)),
        Obj::Pass(o) => Arc::new(StandardBlock::from_modifier(o)),
    }
}

struct ResGen(bae_rs::utils::MonoResampler);
impl Generator for ResGen {
    fn process(&mut self) -> f32 {
        self.0.process()
    }
}

/// Long runs in which the input or blocks are silent for long.
fn simple_idle(c: &mut Case) -> R {
    let ticks = c.rng.log_range(10_000, c.t(150_000, 1_500_000));
    let log: Log<Bv> = Rc::new(RefCell::new(Vec::new()));
    let n = c.rng.range(1, 5);
    let quiet = *c.rng.pick(&[0.0, 0.5, 0.9, 1.0]);
    let new = |i: usize, r: &mut Rng| -> BlockSP { Arc::new(Quiet { id: i, log: log.clone(), lull: Lull::new(ticks, quiet), rng: Rng::new(r.u64()) }) };
    let (mut ig, mut og) = (1.0f64, 1.0f64);
    let first = new(0, &mut c.rng);
    let mut s = SimpleSound::new(ig, og, first);
    for i in 1..n {
        s.add_modifier::<u8>(new(i, &mut c.rng));
    }
    let q = *c.rng.pick(&[0.3, 0.8, 1.0]);
    let mut input = Lull::new(ticks, q);
    for t in 0..ticks {
        if c.rng.chance(1e-4) {
            ig = gain(&mut c.rng);
            og = gain(&mut c.rng);
            s.set_input_gain(ig);
            s.set_output_gain(og);
        }
        let x = input.next(&mut c.rng, dyadic);
        let y = s.process(x);
        let l = log.borrow();
        ensure!(l.len() == 2 * n, "sample {} with {} blocks makes these calls: {:?}", t, n, l);
        let mut carry = x as f64 * ig as f32 as f64;
        for b in 0..n {
            match (l[2 * b], l[2 * b + 1]) {
                (Bv::Prime(i, v), Bv::Proc(j, o)) if i == b && j == b && near(v as f64, carry) => carry = o as f64,
                _ => return Err(Fail::new(format!("sample {} with {} blocks makes these calls: {:?}", t, n, l))),
            }
        }
        ensure!(near(y as f64, carry * og as f32 as f64), "sample {}: output {:e} for {:e} times {}", t, y, carry, og);
        drop(l);
        log.borrow_mut().clear();
        if t % 1000 == 0 {
            c.fold_f(y);
        }
    }
    c.ev("samples", ticks as u64);
    c.ev("block_calls", 2 * (n * ticks) as u64);
    c.desc(format!("simple sound of {} blocks over {} samples, silent stretches", n, ticks));
    c.nontrivial();
    Ok(())
}

/// A block with silent stretches of its own.
struct Quiet {
    id: usize,
    log: Log<Bv>,
    lull: Lull,
    rng: Rng,
}

impl Block for Quiet {
    fn prime_input(&mut self, x: f32) {
        self.log.borrow_mut().push(Bv::Prime(self.id, x));
    }
    fn process(&mut self) -> f32 {
        let y = self.lull.next(&mut self.rng, dyadic);
        self.log.borrow_mut().push(Bv::Proc(self.id, y));
        y
    }
}

pub const C22: Check = Check {
    id: "C22",
    rule: "simple sounds of 1 to 12 (some 400) probe blocks added singly and in lists, before and between samples, with gain changes at any time; the calls recorded in each sample must be exactly prime and process of every block in order with the right values, the output the last one's result times the output gain; chains of up to six real blocks against the same components called by hand, bit for bit; runs of up to 150000 (thorough 1.5 million) samples with long silent stretches of the input and of blocks. Non-trivial: at least one modifier; distinct by outputs. Days: 1.7e7 to 5e8 (thorough 1e9 to 4e9) samples in one go, compared around every power of two and at random places with a fresh one given only the inputs that can still matter. Any level: values from 2^-90 to 2^96 with infinities and NaN among them, whose sums are exact, must arrive as such.",
    assumptions: &["blocks are exclusively owned by the sound"],
    exhaustive: false,
    fams: &[
        Fam { name: "probes", quick: 300000, thorough: 3600000, run: simple },
        Fam { name: "real", quick: 20000, thorough: 240000, run: simple_real },
        Fam { name: "idle", quick: 2500, thorough: 5000, run: simple_idle },
        Fam { name: "any_level", quick: 40000, thorough: 400000, run: crate::c_ext::simple },
        Fam { name: "days", quick: 4, thorough: 8, run: crate::c_long::simple },
    ],
};

// ------------------------------------------------------- complex sounds

/// A complex sound of probe blocks and what is known about it. Nodes are
/// numbered in the order of their creation: 0 input, 1 output.
struct Net {
    s: ComplexSound,
    nodes: Vec<GraphNode>,
    index: HashMap<GraphNode, usize>,
    edges: BTreeSet<(usize, usize)>,
    log: Log<Bv>,
    seed: u64,
    ig: f32,
    og: f32,
    /// What has been sent to each node and not yet been used: value, sum of
    /// magnitudes, and the part that came over connections removed since.
    pending: Vec<(f64, f64)>,
    /// By receiver and sender.
    via: BTreeMap<(usize, usize), f64>,
    gone: Vec<f64>,
    /// Primes recorded after the last processing of each node.
    left: Vec<f64>,
    samples: u64,
    /// A loop has grown beyond what single precision holds.
    over: bool,
}

impl Net {
    fn new(r: &mut Rng) -> Net {
        let mut g = || if r.chance(0.3) { *r.pick(&[1.0, -1.0, 0.5, 0.25]) } else { r.uni(-1.0, 1.0) };
        let (ig, og) = (g(), g());
        let s = ComplexSound::new(ig, og);
        let nodes = vec![s.get_input_gain(), s.get_output_gain()];
        let index = nodes.iter().enumerate().map(|(i, n)| (*n, i)).collect();
        Net {
            s,
            nodes,
            index,
            edges: BTreeSet::new(),
            log: Rc::new(RefCell::new(Vec::new())),
            seed: r.u64(),
            ig: ig as f32,
            og: og as f32,
            pending: vec![(0.0, 0.0); 2],
            via: BTreeMap::new(),
            gone: vec![0.0; 2],
            left: vec![0.0; 2],
            samples: 0,
            over: false,
        }
    }

    fn add(&mut self, mode: usize) -> usize {
        let b = pblock(self.nodes.len(), &self.log, self.seed, mode);
        self.put(b)
    }

    fn put(&mut self, b: BlockSP) -> usize {
        let id = self.nodes.len();
        let g = self.s.add_block(b);
        self.nodes.push(g);
        self.index.insert(g, id);
        self.pending.push((0.0, 0.0));
        self.gone.push(0.0);
        self.left.push(0.0);
        id
    }

    fn connect(&mut self, a: usize, b: usize) {
        self.s.add_connection(self.nodes[a], self.nodes[b]);
        self.edges.insert((a, b));
    }

    fn cut(&mut self, a: usize, b: usize) {
        self.s.remove_connection(self.nodes[a], self.nodes[b]);
        if self.edges.remove(&(a, b)) {
            self.gone[b] += self.via.remove(&(b, a)).unwrap_or(0.0);
        }
    }

    fn feed_forward(&self) -> bool {
        if self.edges.iter().any(|(a, b)| *b == 0 || *a == 1) {
            return false;
        }
        // Without cycles?
        let n = self.nodes.len();
        let mut deg = vec![0; n];
        for (_, b) in &self.edges {
            deg[*b] += 1;
        }
        let mut q: Vec<usize> = (0..n).filter(|i| deg[*i] == 0).collect();
        let mut seen = 0;
        while let Some(a) = q.pop() {
            seen += 1;
            for (_, b) in self.edges.range((a, 0)..=(a, usize::MAX)) {
                deg[*b] -= 1;
                if deg[*b] == 0 {
                    q.push(*b);
                }
            }
        }
        seen == n
    }

    /// The order reported, checked for what it promises.
    fn order(&self) -> Result<Vec<usize>, Fail> {
        let mut o = Vec::new();
        for g in self.s.get_nodes() {
            match self.index.get(&g) {
                Some(i) => o.push(*i),
                None => return Err(Fail::new(format!("the order holds a node that was never added: {:?}", g))),
            }
        }
        let say = || format!("order {:?}, connections {:?}", o, self.edges);
        ensure!(o.first() == Some(&0) && o.last() == Some(&1) && o.len() >= 2, "not from the input to the output: {}", say());
        let mut at = vec![usize::MAX; self.nodes.len()];
        for (i, n) in o.iter().enumerate() {
            ensure!(at[*n] == usize::MAX, "node {} twice: {}", n, say());
            at[*n] = i;
        }
        for (a, b) in &self.edges {
            ensure!(at[*a] != usize::MAX && at[*b] != usize::MAX, "a connected node is missing: {}", say());
        }
        if self.feed_forward() {
            for (a, b) in &self.edges {
                ensure!(at[*a] < at[*b], "node {} doesn't come before node {} that it feeds: {}", a, b, say());
            }
        }
        Ok(o)
    }

    /// One sample, with `route` also checking what each block receives.
    fn process(&mut self, x: f32, route: bool, c: &mut Case) -> Result<f32, Fail> {
        let order = self.order()?;
        ensure!(self.log.borrow().is_empty(), "blocks were used before processing");
        let y = self.s.process(x);
        let l: Vec<Bv> = self.log.borrow_mut().drain(..).collect();
        let procs: Vec<(usize, f32)> = l.iter().filter_map(|e| if let Bv::Proc(i, y) = e { Some((*i, *y)) } else { None }).collect();
        let got: Vec<usize> = procs.iter().map(|p| p.0).collect();
        let want: Vec<usize> = order.iter().cloned().filter(|i| *i > 1).collect();
        ensure!(got == want, "sample {}: blocks processed {:?}, reported order {:?}, connections {:?}", self.samples, got, order, self.edges);
        self.samples += 1;
        c.ev("samples", 1);
        c.ev("block_ticks", order.len() as u64);
        if !route || self.over {
            return Ok(y);
        }
        // Follow the values through the sample. What each probe got: primes
        // since its last processing, some of them from the sample before.
        let mut primes = std::mem::take(&mut self.left);
        let mut outs = procs.iter();
        let mut evs = l.iter();
        self.pending[0].0 += x as f64;
        self.pending[0].1 += x.abs() as f64;
        for n in &order {
            let (sum, mag) = std::mem::replace(&mut self.pending[*n], (0.0, 0.0));
            let gone = std::mem::replace(&mut self.gone[*n], 0.0);
            if mag > 1e30 {
                self.over = true;
                c.ev("overflows", 1);
                return Ok(y);
            }
            // Rounding of the terms and of a single-precision sum of them.
            let tol = (1e-6 + 1.2e-7 * self.nodes.len().min(self.edges.len() + 40) as f64) * mag + 1e-40;
            let out: f64;
            if *n > 1 {
                // Everything primed up to its processing.
                for e in evs.by_ref() {
                    match e {
                        Bv::Prime(i, v) => primes[*i] += *v as f64,
                        Bv::Proc(i, _) if i == n => break,
                        Bv::Proc(..) => (),
                    }
                }
                let v = std::mem::replace(&mut primes[*n], 0.0);
                ensure!(
                    close(v, sum, tol) || (gone != 0.0 && close(v, sum - gone, tol)),
                    "sample {}: node {} gets {} for {} (order {:?}, connections {:?})", self.samples - 1, n, v, sum, order, self.edges
                );
                out = outs.next().map(|p| p.1 as f64).unwrap_or(0.0);
                c.ev("inputs_checked", 1);
            } else {
                let g = if *n == 0 { self.ig } else { self.og } as f64;
                out = sum * g;
                if *n == 1 {
                    let t = (tol + 1e-6 * mag) * g.abs() + 1e-38;
                    ensure!(
                        close(y as f64, out, t) || (gone != 0.0 && close(y as f64, (sum - gone) * g, t)),
                        "sample {}: output {} for {} (order {:?}, connections {:?})", self.samples - 1, y, out, order, self.edges
                    );
                }
            }
            for k in self.via.range((*n, 0)..=(*n, usize::MAX)).map(|e| *e.0).collect::<Vec<_>>() {
                self.via.remove(&k);
            }
            let omag = if *n <= 1 { mag * if *n == 0 { self.ig } else { self.og }.abs() as f64 } else { out.abs() };
            for (a, b) in self.edges.range((*n, 0)..=(*n, usize::MAX)) {
                self.pending[*b].0 += out;
                self.pending[*b].1 += omag;
                *self.via.entry((*b, *a)).or_insert(0.0) += out;
            }
        }
        for e in evs {
            if let Bv::Prime(i, v) = e {
                primes[*i] += *v as f64;
            }
        }
        self.left = primes;
        Ok(y)
    }
}

/// How the connections of a history are chosen.
const SHAPES: [&str; 7] = ["feed-forward", "chain", "layers", "any", "any with loops", "rings", "star"];

fn edge(r: &mut Rng, shape: usize, n: usize, perm: &[usize]) -> (usize, usize) {
    let any = |r: &mut Rng, from: usize, to: usize| loop {
        let (a, b) = (r.below(n), r.below(n));
        if (from == 0 || a != 1) && (to == 0 || b != 0) && a != b {
            return (a, b);
        }
    };
    match shape {
        0 => loop {
            let (a, b) = any(r, 1, 1);
            // Input first, output last, the others in a random order.
            let k = |x: usize| if x == 0 { -1 } else if x == 1 { 1 << 20 } else { perm[x] as i64 };
            if k(a) < k(b) {
                return (a, b);
            }
        },
        1 => {
            // Input, blocks in random order, output.
            let k = r.below(n - 1);
            let mut o: Vec<usize> = (2..n).collect();
            o.sort_by_key(|x| perm[*x]);
            o.insert(0, 0);
            o.push(1);
            (o[k], o[k + 1])
        }
        2 => loop {
            let (a, b) = any(r, 1, 1);
            let w = ((n - 2) as f64).sqrt().ceil() as usize + 1;
            let k = |x: usize| if x == 0 { 0 } else if x == 1 { 1 << 20 } else { 1 + perm[x] / w };
            if k(a) + 1 == k(b) || (b == 1 && k(a) + 1 >= n / w) {
                return (a, b);
            }
            if r.chance(0.02) && k(a) < k(b) {
                return (a, b);
            }
        },
        3 => any(r, 1, 1),
        4 => (r.below(n), r.below(n)),
        5 => {
            // Rings of three, some of them reached from the input.
            let k = r.below(n);
            if r.chance(0.2) {
                (0, k)
            } else if r.chance(0.2) {
                (k, 1)
            } else {
                let g = k / 3 * 3;
                (k, (g + (k - g + 1) % 3).min(n - 1))
            }
        }
        _ => {
            let k = r.below(n);
            if r.chance(0.5) {
                (if r.chance(0.8) { 2.min(n - 1) } else { 0 }, k)
            } else {
                (k, if r.chance(0.8) { 1 } else { 2.min(n - 1) })
            }
        }
    }
}

fn net_history(c: &mut Case, route: bool, min: usize, max: usize) -> R {
    let mut net = Net::new(&mut c.rng);
    let shape = c.rng.below(SHAPES.len());
    let blocks = c.rng.log_range(min, max);
    let mode = c.rng.below(4);
    let mut perm: Vec<usize> = (0..blocks + 2).collect();
    c.rng.shuffle(&mut perm);
    // Samples before anything is there.
    let mut script = String::new();
    let early = c.rng.chance(0.4);
    if early {
        for _ in 0..c.rng.range(1, 5) {
            let x = dyadic(&mut c.rng);
            net.process(x, route, c)?;
        }
        script.push_str("samples first; ");
    }
    let at_once = c.rng.chance(0.5);
    let next = |net: &mut Net, r: &mut Rng| {
        let m = if mode == 3 { r.below(3) } else { mode };
        net.add(m)
    };
    if at_once {
        while net.nodes.len() < blocks + 2 {
            next(&mut net, &mut c.rng);
        }
    }
    let dense = c.rng.uni(0.7, 3.0);
    let target = ((blocks + 1) as f64 * dense) as usize + 1;
    // Samples are dear in large ones.
    let busy = if blocks > 200 { 0.01 } else { 0.5 };
    let run = c.rng.uni(0.0, 0.6) * busy * 2.0;
    let mut ops = 0;
    let mut added = 0;
    let mut tries = 0;
    while added < target && tries < 50 * target {
        tries += 1;
        if net.nodes.len() < blocks + 2 && c.rng.chance(0.4) {
            next(&mut net, &mut c.rng);
            ops += 1;
        }
        let n = net.nodes.len();
        let (a, b) = edge(&mut c.rng, shape, n, &perm);
        if !net.edges.contains(&(a, b)) {
            added += 1;
        } else if c.rng.chance(0.7) {
            continue;
        } else {
            c.ev("repeated_connections", 1);
        }
        net.connect(a, b);
        ops += 1;
        if script.len() < 300 {
            script.push_str(&format!("+{}-{} ", a, b));
        }
        net.order()?;
        if !net.edges.is_empty() && c.rng.chance(0.15) {
            // Take one away, sometimes one that isn't there.
            let (a, b) = if c.rng.chance(0.25) {
                (c.rng.below(n), c.rng.below(n))
            } else {
                *net.edges.iter().nth(c.rng.below(net.edges.len())).unwrap_or(&(0, 1))
            };
            if !net.edges.contains(&(a, b)) {
                c.ev("missing_connections_removed", 1);
            }
            net.cut(a, b);
            ops += 1;
            if script.len() < 300 {
                script.push_str(&format!("-{}-{} ", a, b));
            }
            net.order()?;
        }
        if c.rng.chance(run) {
            for _ in 0..c.rng.range(1, 4) {
                let x = dyadic(&mut c.rng);
                net.process(x, route, c)?;
            }
            if script.len() < 300 {
                script.push_str("run ");
            }
        }
    }
    for _ in 0..c.rng.range(3, 20) {
        let x = if c.rng.chance(0.1) { c.rng.uni(-1e3, 1e3) as f32 } else { dyadic(&mut c.rng) };
        let y = net.process(x, route, c)?;
        c.fold_f(y);
    }
    let feedback = !net.feed_forward();
    // Take it all apart again.
    if c.rng.chance(0.5) {
        while !net.edges.is_empty() {
            let (a, b) = *net.edges.iter().nth(c.rng.below(net.edges.len())).unwrap_or(&(0, 1));
            net.cut(a, b);
            ops += 1;
            if c.rng.chance(busy) {
                let x = dyadic(&mut c.rng);
                net.process(x, route, c)?;
            }
        }
        for _ in 0..2 {
            net.process(1.0, route, c)?;
        }
        c.ev("dismantled", 1);
    }
    c.ev("graph_operations", ops);
    c.ev(if feedback { "histories_with_feedback" } else { "feed_forward_histories" }, 1);
    let edges: Vec<u64> = net.edges.iter().map(|(a, b)| (*a as u64) << 32 | *b as u64).collect();
    for e in edges {
        c.fold(e);
    }
    c.desc(format!("{} blocks, {}: {}", blocks, SHAPES[shape], script));
    if blocks > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Tens of thousands of blocks, of which some dozens are connected.
fn net_vast(c: &mut Case, route: bool) -> R {
    let mut net = Net::new(&mut c.rng);
    let n = match c.idx % 4 {
        0 => c.rng.range(66_000, c.t(70_000, 120_000)),
        _ => c.rng.log_range(4000, 25_000),
    };
    let mode = c.rng.below(4);
    let early = c.rng.below(3);
    for i in 0..n {
        // Finding the order may take its time in so large a graph.
        if i > 300 && i % 64 == 0 && c.late() {
            break;
        }
        let m = if mode == 3 { c.rng.below(3) } else { mode };
        net.add(m);
        if i < early {
            let x = dyadic(&mut c.rng);
            net.process(x, route, c)?;
        }
    }
    let n = net.nodes.len();
    let mut used: Vec<usize> = vec![0, 2, n - 1];
    // Around where counts grow longer.
    for b in 7..18 {
        for d in 0..3 {
            let k = (1usize << b) + d;
            if k - 1 < n && c.rng.chance(0.7) {
                used.push(k - 1);
            }
        }
    }
    for _ in 0..c.rng.range(3, 30) {
        used.push(c.rng.range(2, n - 1));
    }
    used.sort();
    used.dedup();
    c.rng.shuffle(&mut used[1..]);
    used.push(1);
    let u = used.len();
    let feedback = c.rng.chance(0.3);
    for k in 0..c.t(120, 300) {
        if k > 0 && c.late() {
            c.ev("vast_graphs_cut_short", 1);
            break;
        }
        let (a, b) = (c.rng.below(u), c.rng.below(u));
        if a == b && !feedback {
            continue;
        }
        let (a, b) = if feedback || a < b { (used[a], used[b]) } else { (used[b], used[a]) };
        if c.rng.chance(0.2) && !net.edges.is_empty() {
            let e = *net.edges.iter().nth(c.rng.below(net.edges.len())).unwrap_or(&(0, 1));
            net.cut(e.0, e.1);
        } else {
            net.connect(a, b);
        }
        c.ev("graph_operations", 1);
        if k % 16 == 0 {
            let x = dyadic(&mut c.rng);
            let y = net.process(x, route, c)?;
            c.fold_f(y);
        }
    }
    for k in 0..4 {
        if k > 0 && c.late() {
            break;
        }
        let x = dyadic(&mut c.rng);
        let y = net.process(x, route, c)?;
        c.fold_f(y);
    }
    c.ev("vast_graphs", 1);
    c.desc(format!("{} blocks of which {} connected{}", n - 2, u, if feedback { " with feedback" } else { "" }));
    c.nontrivial();
    Ok(())
}

fn net_order_vast(c: &mut Case) -> R {
    net_vast(c, false)
}

fn net_route_vast(c: &mut Case) -> R {
    net_vast(c, true)
}

fn net_order(c: &mut Case) -> R {
    for _ in 0..4 {
        net_history(c, false, 0, 14)?;
    }
    Ok(())
}

fn net_order_big(c: &mut Case) -> R {
    let m = c.t(60, 120);
    net_history(c, false, 0, m)
}

fn net_order_huge(c: &mut Case) -> R {
    let m = c.t(700, 2000);
    net_history(c, false, 250, m)
}

fn net_route(c: &mut Case) -> R {
    for _ in 0..4 {
        net_history(c, true, 0, 14)?;
    }
    Ok(())
}

fn net_route_big(c: &mut Case) -> R {
    let m = c.t(60, 120);
    net_history(c, true, 0, m)
}

fn net_route_huge(c: &mut Case) -> R {
    let m = c.t(700, 2000);
    net_history(c, true, 250, m)
}

/// Every graph on a few blocks, edge by edge.
fn net_small(c: &mut Case, route: bool) -> R {
    // Two blocks between input and output: 4 nodes, 16 possible connections.
    // Each case takes a share of the 65536 graphs.
    let share = c.t(64, 16) as u64;
    let mut g = c.idx;
    let mut done = 0u64;
    while g < 65536 {
        let mut net = Net::new(&mut c.rng);
        net.add(1);
        net.add(0);
        let mut es: Vec<(usize, usize)> = (0..16).filter(|i| g >> i & 1 == 1).map(|i| (i / 4, i % 4)).collect();
        c.rng.shuffle(&mut es);
        for (a, b) in es {
            net.connect(a, b);
        }
        for _ in 0..3 {
            let x = dyadic(&mut c.rng);
            net.process(x, route, c)?;
        }
        done += 1;
        g += share;
    }
    c.fold(c.idx);
    c.ev("small_graphs", done);
    c.desc(format!("all graphs of two blocks, input and output with numbers {} modulo {}", c.idx, share));
    c.nontrivial();
    Ok(())
}

/// Long runs of small graphs of blocks with silent stretches.
fn net_idle(c: &mut Case, route: bool) -> R {
    let mut net = Net::new(&mut c.rng);
    let ticks = c.rng.log_range(5_000, c.t(80_000, 800_000));
    let blocks = c.rng.range(0, 4);
    let quiet = *c.rng.pick(&[0.0, 0.5, 0.9, 1.0]);
    for i in 0..blocks {
        let b = Quiet { id: i + 2, log: net.log.clone(), lull: Lull::new(ticks, quiet), rng: Rng::new(c.rng.u64()) };
        net.put(Arc::new(b));
    }
    let shape = c.rng.below(SHAPES.len());
    let perm: Vec<usize> = (0..blocks + 2).collect();
    for _ in 0..c.rng.range(1, 2 * blocks + 2) {
        let (a, b) = edge(&mut c.rng, shape, blocks + 2, &perm);
        // Loops through the gains alone would grow without end.
        if a > 1 || b > 1 || (a, b) == (0, 1) {
            net.connect(a, b);
        }
    }
    let q = *c.rng.pick(&[0.3, 0.8, 1.0]);
    let mut input = Lull::new(ticks, q);
    for t in 0..ticks {
        let x = input.next(&mut c.rng, dyadic);
        let y = net.process(x, route, c)?;
        if t % 1000 == 0 {
            c.fold_f(y);
        }
    }
    let edges: Vec<u64> = net.edges.iter().map(|(a, b)| (*a as u64) << 32 | *b as u64).collect();
    for e in edges {
        c.fold(e);
    }
    c.desc(format!("{} blocks, {}, {} samples with silent stretches", blocks, SHAPES[shape], ticks));
    c.nontrivial();
    Ok(())
}

fn net_idle_order(c: &mut Case) -> R {
    net_idle(c, false)
}

fn net_idle_route(c: &mut Case) -> R {
    net_idle(c, true)
}

fn net_small_order(c: &mut Case) -> R {
    net_small(c, false)
}

fn net_small_route(c: &mut Case) -> R {
    net_small(c, true)
}

/// Feed-forward graphs of gains, delays and filters: the output is the
/// composition, computed here block by block.
fn net_compose(c: &mut Case) -> R {
    let n = c.rng.log_range(0, 20) + 2;
    let (ig, og) = (gain(&mut c.rng), gain(&mut c.rng));
    let mut s = ComplexSound::new(ig, og);
    let mut nodes = vec![s.get_input_gain(), s.get_output_gain()];
    let mut objs: Vec<Option<crate::c_clone::Obj>> = vec![None, None];
    let mut sets = Vec::new();
    for _ in 2..n {
        let k = *c.rng.pick(&[12, 12, 9, 17, 15, 16, 13]);
        let set = Set::random(&mut c.rng, k);
        nodes.push(s.add_block(real_block(&set)));
        objs.push(Some(set.make()));
        sets.push(set);
    }
    let mut perm: Vec<usize> = (0..n).collect();
    c.rng.shuffle(&mut perm);
    let mut edges = BTreeSet::new();
    for _ in 0..c.rng.range(1, 3 * n) {
        edges.insert(edge(&mut c.rng, 0, n, &perm));
    }
    let mut list: Vec<_> = edges.iter().cloned().collect();
    c.rng.shuffle(&mut list);
    for (a, b) in &list {
        s.add_connection(nodes[*a], nodes[*b]);
    }
    let mut order: Vec<usize> = (2..n).collect();
    order.sort_by_key(|x| perm[*x]);
    order.insert(0, 0);
    order.push(1);
    let mut pk = 0.0f64;
    let steps = 300;
    for t in 0..steps {
        let x = c.rng.sample();
        let y = s.process(x);
        let mut inp = vec![0.0f64; n];
        inp[0] = x as f64;
        let mut out = 0.0;
        for k in &order {
            let o = match &mut objs[*k] {
                None => inp[*k] * if *k == 0 { ig } else { og } as f32 as f64,
                Some(o) => o.step(inp[*k] as f32) as f64,
            };
            pk = pk.max(o.abs()).max(inp[*k].abs());
            if *k == 1 {
                out = o;
            }
            for (a, b) in &edges {
                if a == k {
                    inp[*b] += o;
                }
            }
        }
        pk = pk.max(x.abs() as f64);
        ensure!(close(y as f64, out, 2e-4 * pk * og.abs().max(1.0)), "sample {}: {} for {} (connections {:?}, blocks {:?})", t, y, out, edges, kinds(&sets));
        c.fold_f(y);
    }
    c.ev("samples", steps);
    c.ev("compositions", 1);
    c.desc(format!("{} real blocks, feed-forward, connections {:?}", n - 2, list));
    if n > 2 {
        c.nontrivial();
    }
    Ok(())
}

pub const C23: Check = Check {
    id: "C23",
    rule: "complex sounds of 0 to 14 (big family 60, thorough 120; huge family 250 to 700, thorough 2000; vast family 4000 to 70000, thorough 120000, of which some dozens connected) probe blocks built by random histories of adding blocks, adding connections (feed-forward in hidden orders, chains, layers, arbitrary, self loops, into the input, out of the output, rings apart from the input, stars; also repeated) and removing some or all, with samples in between; runs of up to 80000 (thorough 800000) samples with long silent stretches; all 65536 graphs of two blocks with input and output; after every operation the reported order is checked (input first, output last, every connected block once, after what feeds it when feed-forward), in every sample the recorded processing calls must be exactly that order; feed-forward graphs of real blocks must give the composition computed block by block. Non-trivial: at least one block; distinct by history, connections and outputs.",
    assumptions: &["blocks are exclusively owned by the sound"],
    exhaustive: false,
    fams: &[
        Fam { name: "histories", quick: 20000, thorough: 910000, run: net_order },
        Fam { name: "big", quick: 2600, thorough: 76000, run: net_order_big },
        Fam { name: "huge", quick: 60, thorough: 300, run: net_order_huge },
        Fam { name: "vast", quick: 8, thorough: 200, run: net_order_vast },
        Fam { name: "idle", quick: 300, thorough: 3000, run: net_idle_order },
        Fam { name: "all_small", quick: 64, thorough: 16, run: net_small_order },
        Fam { name: "composition", quick: 20000, thorough: 910000, run: net_compose },
    ],
};

pub const C24: Check = Check {
    id: "C24",
    rule: "the histories and graphs of C23; the recorded priming calls of every block since its last processing must add up to the outputs recorded from the blocks connected to it at the time (in the same sample when earlier in the order, else from the sample before), and the output to the output gain times what reaches it, with the input coming in through the input gain only. Non-trivial: at least one block; distinct by history, connections and outputs. Days: 1.7e7 to 5e8 (thorough 1e9 to 4e9) samples in one go, compared around every power of two and at random places with a fresh one given only the inputs that can still matter. Any level: values from 2^-90 to 2^96 with infinities and NaN among them, whose sums are exact, must arrive as such.",
    assumptions: &["blocks are exclusively owned by the sound", "what a feedback connection has already taken up when it is removed may or may not still arrive"],
    exhaustive: false,
    fams: &[
        Fam { name: "histories", quick: 15000, thorough: 640000, run: net_route },
        Fam { name: "big", quick: 2000, thorough: 53000, run: net_route_big },
        Fam { name: "huge", quick: 60, thorough: 300, run: net_route_huge },
        Fam { name: "vast", quick: 8, thorough: 200, run: net_route_vast },
        Fam { name: "idle", quick: 300, thorough: 3000, run: net_idle_route },
        Fam { name: "any_level", quick: 20000, thorough: 200000, run: crate::c_ext::complex },
        Fam { name: "days", quick: 4, thorough: 8, run: crate::c_long::complex },
        Fam { name: "all_small", quick: 64, thorough: 16, run: net_small_route },
        Fam { name: "composition", quick: 15000, thorough: 640000, run: net_compose },
    ],
};

// ---------------------------------------------------------------- C25

/// Equal calls, overflown values included.
fn same_calls(a: &[Bv], b: &[Bv]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (Bv::Prime(i, v), Bv::Prime(j, w)) | (Bv::Proc(i, v), Bv::Proc(j, w)) => i == j && same(*v, *w),
            _ => false,
        })
}

enum Snd {
    S(SimpleSound),
    C(Net),
}

impl Snd {
    fn s(&mut self) -> &mut dyn Sound {
        match self {
            Snd::S(s) => s,
            Snd::C(n) => &mut n.s,
        }
    }
}

/// A sound that depends on nothing but the arguments; its probes write to the log.
fn any_sound(seed: u64, complex: bool, real: bool, log: &Log<Bv>) -> (Snd, String) {
    let mut r = Rng::new(seed);
    let n = r.range(1, 6);
    let mut blocks: Vec<BlockSP> = Vec::new();
    let mut say = String::new();
    for i in 0..n {
        blocks.push(if real {
            let k = if i == 0 && r.chance(0.5) { r.below(7) } else { r.range(7, 17) };
            let set = Set::random(&mut r, k);
            say.push_str(&kinds(&[set.clone()])[0]);
            real_block(&set)
        } else {
            let m = r.below(3);
            pblock(i + 2, log, seed, m)
        });
    }
    if !complex {
        let (a, b) = (gain(&mut r), gain(&mut r));
        let mut s = SimpleSound::new(a, b, blocks.remove(0));
        s.extend_modifiers(blocks);
        (Snd::S(s), format!("simple sound of {} blocks {}", n, say))
    } else {
        let mut net = Net::new(&mut r);
        net.log = log.clone();
        for b in blocks {
            net.put(b);
        }
        let shape = r.below(SHAPES.len());
        let mut perm: Vec<usize> = (0..n + 2).collect();
        r.shuffle(&mut perm);
        // Feedback through real blocks may blow up, which is no matter here
        // but makes the outputs meaningless.
        let shape = if real { 0 } else { shape };
        for _ in 0..r.range(1, 2 * n + 2) {
            let (a, b) = edge(&mut r, shape, n + 2, &perm);
            net.connect(a, b);
        }
        (Snd::C(net), format!("complex sound of {} blocks {}", n, say))
    }
}

fn toggles(c: &mut Case) -> R {
    let complex = c.rng.chance(0.6);
    let real = c.rng.chance(0.3);
    let logs: [Log<Bv>; 2] = [Default::default(), Default::default()];
    let seed = c.rng.u64();
    let build = |log: &Log<Bv>| any_sound(seed, complex, real, log);
    let (mut a, say) = build(&logs[0]);
    let (mut b, _) = build(&logs[1]);
    let long = c.idx % 150 == 11;
    let ticks = if long { c.rng.log_range(10_000, c.t(150_000, 1_500_000)) } else { c.rng.range(100, 600) };
    let p = if long { *c.rng.pick(&[2.0, 5.0, 20.0]) / ticks as f64 } else { *c.rng.pick(&[0.005, 0.05, 0.3]) };
    let silent = long && c.rng.chance(0.5);
    let mut input = Lull::new(ticks, 0.7);
    let (mut paused, mut muted) = (false, false);
    let (mut np, mut nm, mut edits) = (0u64, 0u64, 0u64);
    for t in 0..ticks {
        for _ in 0..2 {
            if c.rng.chance(p) {
                if c.rng.chance(0.5) {
                    a.s().toggle_pause();
                    paused = !paused;
                } else {
                    a.s().toggle_mute();
                    muted = !muted;
                }
                c.ev("toggles", 1);
            }
            ensure!(a.s().is_paused() == paused && a.s().is_muted() == muted, "after {} ticks: paused {} and muted {} reported as {} and {}", t, paused, muted, a.s().is_paused(), a.s().is_muted());
        }
        // Changes made meanwhile count just the same.
        if c.rng.chance(if long { 1e-4 } else { 0.02 }) {
            edits += 1;
            match (&mut a, &mut b) {
                (Snd::S(a), Snd::S(b)) => {
                    let g = gain(&mut c.rng);
                    if c.rng.chance(0.5) {
                        a.set_input_gain(g);
                        b.set_input_gain(g);
                    } else {
                        a.set_output_gain(g);
                        b.set_output_gain(g);
                    }
                }
                (Snd::C(a), Snd::C(b)) => {
                    let n = a.nodes.len();
                    let (x, y) = if real { (2 + c.rng.below(n - 2), 1) } else { (c.rng.below(n), c.rng.below(n)) };
                    if c.rng.chance(0.5) {
                        a.connect(x, y);
                        b.connect(x, y);
                    } else {
                        a.cut(x, y);
                        b.cut(x, y);
                    }
                }
                _ => panic!("kinds"),
            }
        }
        // So do registrations, first ones and later ones.
        if c.rng.chance(0.01) {
            let id = c.rng.below(5);
            a.s().register(id);
            b.s().register(id);
            c.ev("registrations", 1);
            ensure!(a.s().is_paused() == paused && a.s().is_muted() == muted, "after registering: paused {} and muted {} reported as {} and {}", paused, muted, a.s().is_paused(), a.s().is_muted());
        }
        let x = if silent { input.next(&mut c.rng, |r| r.sample()) } else { c.rng.sample() };
        let y = a.s().process(x);
        let la: Vec<Bv> = logs[0].borrow_mut().drain(..).collect();
        if paused {
            ensure!(y == 0.0, "sample {} while paused is {}", t, y);
            ensure!(la.is_empty(), "sample {} while paused uses blocks: {:?}", t, la);
            np += 1;
            continue;
        }
        let w = b.s().process(x);
        let lb: Vec<Bv> = logs[1].borrow_mut().drain(..).collect();
        ensure!(same_calls(&la, &lb), "sample {} (muted: {}) makes other calls: {:?} for {:?}", t, muted, la, lb);
        if muted {
            ensure!(y == 0.0, "sample {} while muted is {}", t, y);
            nm += 1;
        } else {
            ensure!(same(y, w), "sample {} is {:e}, {:e} without pauses and mutes", t, y, w);
            if !long || t % 1000 == 0 {
                c.fold_f(y);
            }
        }
    }
    c.ev("samples", ticks as u64);
    c.ev("paused_samples", np);
    c.ev("muted_samples", nm);
    c.ev("edits", edits);
    c.desc(format!("{}, {} samples, {} paused, {} muted", say, ticks, np, nm));
    if np > 0 && nm > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub const C25: Check = Check {
    id: "C25",
    rule: "simple and complex sounds of probe blocks and of real blocks, 100 to 600 samples (one in 150 up to 150000, thorough 1.5 million, paused or muted for long and with silent stretches) with pause and mute toggled at random (rarely to very often, together), gains and connections changed and the sound registered meanwhile; while paused the output must be 0 and no block called; otherwise the calls must equal, argument by argument, those in a twin sound that never sees the pauses nor the toggles, and the output the twin's or, while muted, 0. Non-trivial: some samples paused and some muted; distinct by outputs. Often: up to 8e6 (thorough 1e9) toggles. Any level: values from 2^-90 to 2^96 with infinities and NaN among them, whose sums are exact, must arrive as such.",
    assumptions: &["blocks are exclusively owned by the sound"],
    exhaustive: false,
    fams: &[
        Fam { name: "toggles", quick: 240000, thorough: 3600000, run: toggles },
        Fam { name: "any_level", quick: 20000, thorough: 200000, run: crate::c_ext::mute },
        Fam { name: "often", quick: 8, thorough: 8, run: crate::c_long::toggling },
    ],
};

// ---------------------------------------------------------------- C34

/// Changes to a copy that is thrown away afterwards.
fn spoil(r: &mut Rng, s: &mut Snd2) {
    for _ in 0..r.below(4) {
        match r.below(5) {
            0 => s.s().toggle_pause(),
            1 => s.s().toggle_mute(),
            2 => s.s().register(r.below(100)),
            3 => s.s().unregister(),
            _ => match s {
                Snd2::S(s) => {
                    s.set_input_gain(gain(r));
                    s.set_output_gain(gain(r));
                }
                Snd2::C(s) => {
                    let v: Vec<GraphNode> = s.get_nodes().clone().into_iter().collect();
                    let (a, b) = (*r.pick(&v), *r.pick(&v));
                    if r.chance(0.5) {
                        s.add_connection(a, b);
                    } else {
                        s.remove_connection(a, b);
                    }
                }
            },
        }
    }
}

enum Snd2 {
    S(SimpleSound),
    C(ComplexSound),
}

impl Snd2 {
    fn s(&mut self) -> &mut dyn Sound {
        match self {
            Snd2::S(s) => s,
            Snd2::C(s) => s,
        }
    }
}

/// A sound that is cloned again and again, where either one takes over, against
/// a twin that never is.
pub fn takeover(c: &mut Case) -> R {
    let complex = c.rng.chance(0.6);
    let real = c.rng.chance(0.4);
    let logs: [Log<Bv>; 2] = [Default::default(), Default::default()];
    let seed = c.rng.u64();
    let (mut a, say) = any_sound(seed, complex, real, &logs[0]);
    let (mut b, _) = any_sound(seed, complex, real, &logs[1]);
    let ticks = c.rng.range(50, 500);
    let p = *c.rng.pick(&[0.01, 0.1, 0.4]);
    let mut clones = 0;
    let mut next = 100;
    for t in 0..ticks {
        if c.rng.chance(p) {
            for _ in 0..c.rng.range(1, 3) {
                let keep = c.rng.chance(0.3);
                let mut away = match &mut a {
                    Snd::S(s) => {
                        let k = s.clone();
                        Snd2::S(if keep { k } else { std::mem::replace(s, k) })
                    }
                    Snd::C(n) => {
                        let k = n.s.clone();
                        Snd2::C(if keep { k } else { std::mem::replace(&mut n.s, k) })
                    }
                };
                clones += 1;
                spoil(&mut c.rng, &mut away);
                drop(away);
            }
        }
        // The same operations on both.
        if c.rng.chance(0.1) {
            let what = c.rng.below(4);
            let id = c.rng.below(50);
            for s in [a.s(), b.s()] {
                match what {
                    0 => s.toggle_pause(),
                    1 => s.toggle_mute(),
                    2 => s.register(id),
                    _ => s.unregister(),
                }
            }
        }
        if c.rng.chance(0.05) {
            match (&mut a, &mut b) {
                (Snd::S(a), Snd::S(b)) => {
                    let g = gain(&mut c.rng);
                    if c.rng.chance(0.5) {
                        a.set_input_gain(g);
                        b.set_input_gain(g);
                    } else if c.rng.chance(0.5) {
                        a.set_output_gain(g);
                        b.set_output_gain(g);
                    } else if !real {
                        next += 1;
                        a.add_modifier::<u8>(pblock(next, &logs[0], seed, 1));
                        b.add_modifier::<u8>(pblock(next, &logs[1], seed, 1));
                    }
                }
                (Snd::C(a), Snd::C(b)) => {
                    let n = a.nodes.len();
                    if !real && n < 12 && c.rng.chance(0.2) {
                        next += 1;
                        let (x, y) = (a.put(pblock(next, &logs[0], seed, 1)), b.put(pblock(next, &logs[1], seed, 1)));
                        ensure!(x == y && a.nodes[x] == b.nodes[y], "a block added after cloning is node {:?} instead of {:?}", a.nodes[x], b.nodes[y]);
                    }
                    let (x, y) = if real { (2 + c.rng.below(n - 2), 1) } else { (c.rng.below(n), c.rng.below(n)) };
                    if c.rng.chance(0.5) {
                        a.connect(x, y);
                        b.connect(x, y);
                    } else {
                        a.cut(x, y);
                        b.cut(x, y);
                    }
                }
                _ => panic!("kinds"),
            }
        }
        let says = |s: &mut dyn Sound| (s.is_paused(), s.is_muted(), s.get_id());
        let (x, y) = (says(a.s()), says(b.s()));
        ensure!(x == y, "after {} clones: paused, muted and identifier are {:?} instead of {:?}", clones, x, y);
        match (&a, &b) {
            (Snd::S(a), Snd::S(b)) => {
                let (x, y) = ((a.get_input_gain(), a.get_output_gain()), (b.get_input_gain(), b.get_output_gain()));
                ensure!(x == y, "after {} clones the gains are {:?} instead of {:?}", clones, x, y);
            }
            (Snd::C(a), Snd::C(b)) => {
                let (x, y) = (a.s.get_nodes(), b.s.get_nodes());
                ensure!(x == y, "after {} clones the order is {:?} instead of {:?}", clones, x, y);
                ensure!(a.s.get_input_gain() == b.nodes[0] && a.s.get_output_gain() == b.nodes[1], "after {} clones input and output are {:?} and {:?}", clones, a.s.get_input_gain(), a.s.get_output_gain());
            }
            _ => panic!("kinds"),
        }
        let x = c.rng.sample();
        let (y, w) = (a.s().process(x), b.s().process(x));
        let la: Vec<Bv> = logs[0].borrow_mut().drain(..).collect();
        let lb: Vec<Bv> = logs[1].borrow_mut().drain(..).collect();
        ensure!(same_calls(&la, &lb), "sample {} after {} clones makes other calls: {:?} for {:?}", t, clones, la, lb);
        ensure!(same(y, w), "sample {} after {} clones is {:e} instead of {:e}", t, clones, y, w);
        c.fold_f(y);
    }
    c.ev("samples", ticks as u64);
    c.ev("clones", clones);
    c.desc(format!("{}, {} samples, {} clones", say, ticks, clones));
    if clones > 0 {
        c.nontrivial();
    }
    Ok(())
}
