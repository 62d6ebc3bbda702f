//! Values of any level, infinities and values that are no numbers, on their way
//! through blocks, sounds and channels (C21, C22, C24, C25, C26).

use crate::ensure;
use crate::rng::*;
use crate::rt::*;
use crate::util::*;
use bae_rs::channels::*;
use bae_rs::generators::Generator;
use bae_rs::modifiers::Modifier;
use bae_rs::sounds::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

/// Small whole numbers times a power of two, whose sums are exact in any order,
/// and now and then something that isn't finite.
#[derive(Clone, Copy, Debug)]
pub struct Ext {
    scale: f32,
    wild: f64,
}

impl Ext {
    pub fn new(r: &mut Rng) -> Ext {
        Ext { scale: 2f32.powi(r.range(0, 180) as i32 - 90), wild: *r.pick(&[0.0, 0.01, 0.1]) }
    }

    pub fn value(&self, r: &mut Rng) -> f32 {
        if r.chance(self.wild) {
            *r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN])
        } else if r.chance(0.1) {
            0.0
        } else {
            self.scale * (r.range(0, 128) as f32 - 64.0)
        }
    }
}

/// Gains that scale such values exactly.
fn exact_gain(r: &mut Rng) -> f64 {
    *r.pick(&[1.0, -1.0, 0.5, 0.25, 2.0, -4.0, 3.0])
}

/// What a part was given and what it answered, in order.
type Seen = Rc<RefCell<Vec<(usize, f32, f32)>>>;

/// Generator, modifier, block and sound in one.
struct Part {
    id: usize,
    seen: Seen,
    ext: Ext,
    rng: Rng,
    input: f32,
    reg: Option<usize>,
}

impl Part {
    fn new(id: usize, seen: &Seen, ext: Ext, r: &mut Rng) -> Part {
        Part { id, seen: seen.clone(), ext, rng: Rng::new(r.u64()), input: 0.0, reg: None }
    }
    fn step(&mut self, x: f32) -> f32 {
        let y = self.ext.value(&mut self.rng);
        self.seen.borrow_mut().push((self.id, x, y));
        y
    }
}

impl Generator for Part {
    fn process(&mut self) -> f32 {
        self.step(0.0)
    }
}

impl Modifier for Part {
    fn process(&mut self, x: f32) -> f32 {
        self.step(x)
    }
}

impl Block for Part {
    fn prime_input(&mut self, x: f32) {
        self.input += x;
    }
    fn process(&mut self) -> f32 {
        let x = std::mem::replace(&mut self.input, 0.0);
        self.step(x)
    }
}

impl Sound for Part {
    fn toggle_pause(&mut self) {}
    fn is_paused(&self) -> bool {
        false
    }
    fn toggle_mute(&mut self) {}
    fn is_muted(&self) -> bool {
        false
    }
    fn register(&mut self, id: usize) {
        self.reg = Some(id);
    }
    fn unregister(&mut self) {
        self.reg = None;
    }
    fn process(&mut self, x: f32) -> f32 {
        self.step(x)
    }
    fn get_id(&self) -> Option<usize> {
        self.reg
    }
}

/// Equal, or both not a number; a product of nothing and infinity may be either.
fn eq(y: f32, w: f64) -> bool {
    same(y, w as f32)
}

fn count(c: &mut Case, seen: &Seen) {
    let s = seen.borrow();
    c.ev("calls", s.len() as u64);
    c.ev("not_finite", s.iter().filter(|e| !e.1.is_finite() || !e.2.is_finite()).count() as u64);
}

pub fn block(c: &mut Case) -> R {
    let seen: Seen = Default::default();
    let (e, ge) = (Ext::new(&mut c.rng), Ext::new(&mut c.rng));
    let (g, m) = (Part::new(0, &seen, ge, &mut c.rng), Part::new(1, &seen, e, &mut c.rng));
    let kind = c.rng.below(6);
    let log = seen.clone();
    let mut i = Rng::new(c.rng.u64());
    let mut b = match kind {
        0 => StandardBlock::new(
            g,
            m,
            Arc::new(move |a, b| {
                let y = e.value(&mut i);
                log.borrow_mut().push((2, a, b));
                log.borrow_mut().push((3, y, y));
                y
            }),
        ),
        1 => StandardBlock::new(g, m, StandardBlock::default_interactor()),
        2 => StandardBlock::new(g, m, StandardBlock::generator_passthrough()),
        3 => StandardBlock::new(g, m, StandardBlock::modifier_passthrough()),
        4 => StandardBlock::from_generator(g),
        _ => StandardBlock::from_modifier(m),
    };
    for t in 0..100 {
        seen.borrow_mut().clear();
        let mut sum = 0.0f64;
        for _ in 0..c.rng.below(4) {
            let x = e.value(&mut c.rng);
            b.prime_input(x);
            sum += x as f64;
        }
        let y = b.process();
        let s = seen.borrow().clone();
        let of = |id: usize| s.iter().filter(|e| e.0 == id).cloned().collect::<Vec<_>>();
        let (gs, ms, is) = (of(0), of(1), of(2));
        ensure!(gs.len() == (kind != 5) as usize && ms.len() == (kind != 4) as usize, "tick {}: calls {:?}", t, s);
        if let Some(m) = ms.first() {
            ensure!(eq(m.1, sum), "tick {}: the modifier got {:e} for inputs adding up to {:e}", t, m.1, sum);
        }
        let want = match kind {
            0 => {
                ensure!(is.len() == 1 && same(is[0].1, gs[0].2) && same(is[0].2, ms[0].2), "tick {}: calls {:?}", t, s);
                of(3)[0].1
            }
            1 => gs[0].2 * ms[0].2,
            2 | 4 => gs[0].2,
            _ => ms[0].2,
        };
        ensure!(same(y, want), "tick {} of a block of kind {} gives {:e} for {:e} (calls {:?})", t, kind, y, want, s);
        c.fold_f(y);
        count(c, &seen);
    }
    c.ev("ticks", 100);
    c.desc(format!("block of kind {}, {:?} and {:?}", kind, ge, e));
    c.nontrivial();
    Ok(())
}

pub fn simple(c: &mut Case) -> R {
    let seen: Seen = Default::default();
    let n = c.rng.range(1, 6);
    let e = Ext::new(&mut c.rng);
    let part = |i: usize, r: &mut Rng| -> BlockSP { Arc::new(Part::new(i, &seen, Ext::new(r), r)) };
    let (mut ig, mut og) = (exact_gain(&mut c.rng), exact_gain(&mut c.rng));
    let mut s = SimpleSound::new(ig, og, part(0, &mut c.rng));
    s.extend_modifiers((1..n).map(|i| part(i, &mut c.rng)).collect());
    let mut muted = false;
    for t in 0..100 {
        if c.rng.chance(0.05) {
            s.toggle_mute();
            muted = !muted;
        }
        if c.rng.chance(0.05) {
            ig = exact_gain(&mut c.rng);
            og = exact_gain(&mut c.rng);
            s.set_input_gain(ig);
            s.set_output_gain(og);
        }
        seen.borrow_mut().clear();
        let x = e.value(&mut c.rng);
        let y = s.process(x);
        let l = seen.borrow().clone();
        ensure!(l.iter().map(|e| e.0).eq(0..n), "sample {}: {} blocks, calls {:?}", t, n, l);
        let mut carry = x as f64 * ig;
        for e in &l {
            ensure!(eq(e.1, carry), "sample {}: block {} gets {:e} for {:e}", t, e.0, e.1, carry);
            carry = e.2 as f64;
        }
        if muted {
            ensure!(y == 0.0, "sample {} is {:e} while muted", t, y);
        } else {
            ensure!(eq(y, carry * og), "sample {}: {:e} for {:e} times {}", t, y, carry, og);
        }
        c.fold_f(y);
        count(c, &seen);
    }
    c.ev("samples", 100);
    c.desc(format!("simple sound of {} blocks, inputs {:?}", n, e));
    c.nontrivial();
    Ok(())
}

pub fn complex(c: &mut Case) -> R {
    let seen: Seen = Default::default();
    let n = c.rng.range(2, 9);
    let e = Ext::new(&mut c.rng);
    let (ig, og) = (exact_gain(&mut c.rng), exact_gain(&mut c.rng));
    let mut s = ComplexSound::new(ig, og);
    let mut nodes = vec![s.get_input_gain(), s.get_output_gain()];
    for i in 2..n {
        nodes.push(s.add_block(Arc::new(Part::new(i, &seen, e, &mut c.rng))));
    }
    let mut edges = BTreeSet::new();
    for _ in 0..c.rng.range(1, 3 * n) {
        let (a, b) = (c.rng.below(n), c.rng.below(n));
        // No loops through the gains alone.
        if a > 1 || b > 1 || (a, b) == (0, 1) {
            edges.insert((a, b));
        }
    }
    for (a, b) in &edges {
        s.add_connection(nodes[*a], nodes[*b]);
    }
    let order: Vec<usize> = s.get_nodes().iter().filter_map(|g| nodes.iter().position(|n| n == g)).collect();
    let mut muted = false;
    let mut inp = vec![0.0f64; n];
    for t in 0..100 {
        if c.rng.chance(0.05) {
            s.toggle_mute();
            muted = !muted;
        }
        seen.borrow_mut().clear();
        let x = e.value(&mut c.rng);
        let y = s.process(x);
        let l = seen.borrow().clone();
        let mut it = l.iter();
        inp[0] += x as f64;
        for k in &order {
            let got = std::mem::replace(&mut inp[*k], 0.0);
            let out = match k {
                0 => got * ig,
                1 => {
                    let w = if muted { 0.0 } else { got * og };
                    ensure!(eq(y, w), "sample {} (muted: {}): {:e} for {:e} (connections {:?})", t, muted, y, w, edges);
                    got * og
                }
                _ => {
                    let e = it.next();
                    ensure!(e.map(|e| e.0 == *k && eq(e.1, got)).unwrap_or(false), "sample {}: node {} called with {:?} for {:e} (connections {:?})", t, k, e, got, edges);
                    e.map(|e| e.2 as f64).unwrap_or(0.0)
                }
            };
            for (_, b) in edges.range((*k, 0)..=(*k, usize::MAX)) {
                inp[*b] += out;
            }
        }
        c.fold_f(y);
        count(c, &seen);
    }
    c.ev("samples", 100);
    c.desc(format!("complex sound of {} nodes, connections {:?}, values {:?}", n, edges, e));
    if n > 2 {
        c.nontrivial();
    }
    Ok(())
}

pub fn mute(c: &mut Case) -> R {
    if c.rng.chance(0.5) {
        simple(c)
    } else {
        complex(c)
    }
}

pub fn channel<SF: crate::c_chan::Sf>(c: &mut Case) -> R {
    let seen: Seen = Default::default();
    let n = c.rng.range(1, 8);
    let e = Ext::new(&mut c.rng);
    let mut g = exact_gain(&mut c.rng);
    let mut ch: StandardChannel<SF> = StandardChannel::new(g);
    for i in 0..n {
        let mut s: Arc<dyn Sound> = Arc::new(Part::new(i, &seen, e, &mut c.rng));
        ch.add_sound(&mut s);
    }
    ch.set_process_time(Duration::from_millis(1));
    for t in 0..4 {
        if c.rng.chance(0.3) {
            g = exact_gain(&mut c.rng);
            ch.set_gain(g);
        }
        seen.borrow_mut().clear();
        ch.process();
        let l = seen.borrow().clone();
        let mut outs = vec![Vec::new(); n];
        for (i, _, y) in &l {
            outs[*i].push(*y);
        }
        let out = ch.get_output();
        ensure!(outs.iter().all(|o| o.len() == out.len()), "call {}: sounds were asked for {:?} samples, the track has {}", t, outs.iter().map(|o| o.len()).collect::<Vec<_>>(), out.len());
        for (k, y) in out.iter().enumerate() {
            let parts = y.parts();
            let (mut sum, mut mag) = (vec![0.0f64; parts.len()], 0.0f64);
            for o in &outs {
                for (s, p) in sum.iter_mut().zip(SF::from_sample(o[k]).parts()) {
                    *s += p;
                    mag = mag.max(p.abs());
                }
            }
            for (p, s) in parts.iter().zip(sum) {
                let w = s * g;
                let ok = if w.is_finite() { close(*p, w, 3e-7 * mag * n as f64 * g.abs()) } else { *p == w || (p.is_nan() && w.is_nan()) };
                ensure!(ok, "call {}, sample {}: {:e} for {:e} ({} sounds, gain {})", t, k, p, w, n, g);
            }
            if k < 8 {
                c.fold_f(parts[0] as f32);
            }
        }
        c.ev("samples", out.len() as u64);
        count(c, &seen);
    }
    c.desc(format!("{} sounds, {:?}", n, e));
    c.nontrivial();
    Ok(())
}
