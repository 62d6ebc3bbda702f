//! C26, C27: channels, with probe sounds that write down every call.

use crate::c_clone::{Obj, Set};
use crate::c_snd::{kinds, real_block};
use crate::ensure;
use crate::rng::*;
use crate::rt::*;
use crate::util::*;
use bae_rs::channels::*;
use bae_rs::sample_format::{Mono, SampleFormat, Stereo};
use bae_rs::sounds::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

type SoundSP = Arc<dyn Sound>;

#[derive(Default)]
struct Seen {
    outs: Vec<f32>,
    bad_input: Option<f32>,
    registered: Vec<usize>,
    unregistered: usize,
    toggled: usize,
    dropped: bool,
}

struct Probe {
    seen: Rc<RefCell<Seen>>,
    rng: Rng,
    style: usize,
    n: usize,
    id: Option<usize>,
    /// What it says about itself: paused, muted.
    says: (bool, bool),
    lull: Lull,
}

impl Probe {
    fn value(&mut self) -> f32 {
        self.n += 1;
        match self.style {
            5 | 6 => self.lull.next(&mut self.rng, |r| r.sample()),
            0 => self.rng.sample(),
            1 => self.rng.range(1, 512) as f32 / 64.0,
            2 => self.n as f32,
            3 => self.rng.uni(-1e4, 1e4) as f32,
            _ => 0.0,
        }
    }
}

impl Sound for Probe {
    fn toggle_pause(&mut self) {
        self.seen.borrow_mut().toggled += 1;
    }
    fn is_paused(&self) -> bool {
        self.says.0
    }
    fn toggle_mute(&mut self) {
        self.seen.borrow_mut().toggled += 1;
    }
    fn is_muted(&self) -> bool {
        self.says.1
    }
    fn process(&mut self, input: f32) -> f32 {
        let y = self.value();
        let mut s = self.seen.borrow_mut();
        if input != 0.0 {
            s.bad_input = Some(input);
        }
        s.outs.push(y);
        y
    }
    fn register(&mut self, id: usize) {
        self.seen.borrow_mut().registered.push(id);
        self.id = Some(id);
    }
    fn unregister(&mut self) {
        self.seen.borrow_mut().unregistered += 1;
        self.id = None;
    }
    fn get_id(&self) -> Option<usize> {
        self.id
    }
}

impl Drop for Probe {
    fn drop(&mut self) {
        self.seen.borrow_mut().dropped = true;
    }
}

pub trait Sf: SampleFormat + 'static {
    fn parts(&self) -> Vec<f64>;
}
impl Sf for Mono {
    fn parts(&self) -> Vec<f64> {
        vec![self.mono as f64]
    }
}
impl Sf for Stereo {
    fn parts(&self) -> Vec<f64> {
        vec![self.left as f64, self.right as f64]
    }
}

/// A sound in the channel and how to tell what it contributes.
enum Src {
    Probe(Rc<RefCell<Seen>>),
    /// Settings of a chain of real blocks, run by hand.
    Real(Vec<Obj>),
    /// A paused or muted sound.
    Silent,
}

struct Member {
    src: Src,
    id: usize,
    used: usize,
    name: String,
}

struct Chan<SF: Sf> {
    ch: StandardChannel<SF>,
    members: Vec<Member>,
    removed: Vec<Member>,
    ids: Vec<usize>,
    gain: f64,
    lens: (usize, usize),
}

fn lengths(d: Duration) -> (usize, usize) {
    let n = d.as_nanos() * 48000;
    let e = (n / 1_000_000_000) as usize;
    let rest = n % 1_000_000_000;
    // Where rounding of the product may tip it over.
    let slack = 1_000 + e as u128 / 1_000_000;
    if rest + slack >= 1_000_000_000 {
        (e, e + 1)
    } else if rest <= slack && e > 0 && rest != 0 {
        (e - 1, e)
    } else if rest == 0 && e > 0 {
        // A whole number of samples is only lost to rounding.
        (e - 1, e)
    } else {
        (e, e)
    }
}

impl<SF: Sf> Chan<SF> {
    fn new(gain: f64) -> Self {
        Chan { ch: StandardChannel::new(gain), members: Vec::new(), removed: Vec::new(), ids: Vec::new(), gain, lens: (480, 480) }
    }

    fn register(&mut self, id: usize, src: Src, name: String) -> R {
        ensure!(!self.ids.contains(&id), "{} got the identifier {} that another sound had before ({:?})", name, id, self.ids);
        self.ids.push(id);
        self.members.push(Member { src, id, used: 0, name });
        Ok(())
    }

    fn add_probe(&mut self, r: &mut Rng) -> R {
        let seen: Rc<RefCell<Seen>> = Default::default();
        let style = r.below(7);
        let says = (r.chance(0.15), r.chance(0.15));
        let lull = Lull::new(200_000, if style == 5 { 0.5 } else { 0.95 });
        let mut s: SoundSP = Arc::new(Probe { seen: seen.clone(), rng: Rng::new(r.u64()), style, n: 0, id: None, says, lull });
        self.ch.add_sound(&mut s);
        let reg = seen.borrow().registered.clone();
        ensure!(reg.len() == 1, "adding a sound registers it {} times", reg.len());
        ensure!(s.get_id() == Some(reg[0]), "registered as {} but reports {:?}", reg[0], s.get_id());
        ensure!(seen.borrow().outs.is_empty(), "adding a sound processes it");
        let n = self.ids.len();
        self.register(reg[0], Src::Probe(seen), format!("probe {}", n))
    }

    fn add_real(&mut self, r: &mut Rng) -> R {
        let sets: Vec<Set> = (0..r.range(1, 3))
            .map(|i| {
                let k = if i == 0 { r.below(7) } else { r.range(7, 17) };
                Set::random(r, k)
            })
            .collect();
        let mut bl: Vec<BlockSP> = sets.iter().map(real_block).collect();
        let name = format!("{:?}", kinds(&sets));
        let mut s: SoundSP = if r.chance(0.5) {
            let rest = bl.split_off(1);
            let mut s = SimpleSound::new(1.0, 1.0, bl.remove(0));
            s.extend_modifiers(rest);
            Arc::new(s)
        } else {
            let mut s = ComplexSound::new(1.0, 1.0);
            let mut at = s.get_input_gain();
            for b in bl {
                let n = s.add_block(b);
                s.add_connection(at, n);
                at = n;
            }
            let out = s.get_output_gain();
            s.add_connection(at, out);
            Arc::new(s)
        };
        ensure!(s.get_id().is_none(), "a new sound has the identifier {:?}", s.get_id());
        // Paused or muted from the start, it adds nothing.
        let silent = r.chance(0.15);
        if silent {
            let s = Arc::get_mut(&mut s).ok_or_else(|| Fail::new("the sound is shared".into()))?;
            if r.chance(0.5) {
                s.toggle_pause();
            } else {
                s.toggle_mute();
            }
        }
        self.ch.add_sound(&mut s);
        let id = match s.get_id() {
            Some(id) => id,
            None => return Err(Fail::new("an added sound has no identifier".into())),
        };
        drop(s);
        let src = if silent { Src::Silent } else { Src::Real(sets.iter().map(|s| s.make()).collect()) };
        self.register(id, src, name)
    }

    fn remove(&mut self, id: usize) {
        self.ch.remove_sound(id);
        if let Some(k) = self.members.iter().position(|m| m.id == id) {
            let m = self.members.remove(k);
            self.removed.push(m);
        }
    }

    fn process(&mut self, c: &mut Case) -> R {
        self.ch.process();
        let out = self.ch.get_output();
        let n = out.len();
        ensure!(n == self.lens.0 || n == self.lens.1, "the track holds {} samples instead of {}", n, self.lens.1);
        self.lens = (n, n);
        let parts = SF::default().parts().len();
        let mut sum = vec![0.0f64; n * parts];
        let mut mag = vec![0.0f64; n * parts];
        let mut real = 0;
        for m in &mut self.members {
            match &mut m.src {
                Src::Probe(s) => {
                    let mut s = s.borrow_mut();
                    ensure!(s.outs.len() == n, "{} was asked for {} samples in a track of {}", m.name, s.outs.len(), n);
                    ensure!(s.bad_input.is_none(), "{} got the input {:?}", m.name, s.bad_input);
                    ensure!(s.registered.len() == 1 && s.unregistered == 0 && s.toggled == 0, "{} was registered {:?}, unregistered {} times, toggled {} times", m.name, s.registered, s.unregistered, s.toggled);
                    ensure!(!s.dropped, "{} was thrown away", m.name);
                    for (i, v) in s.outs.drain(..).enumerate() {
                        for (p, x) in SF::from_sample(v).parts().iter().enumerate() {
                            sum[i * parts + p] += x;
                            mag[i * parts + p] += x.abs();
                        }
                    }
                }
                Src::Silent => (),
                Src::Real(objs) => {
                    real += 1;
                    for i in 0..n {
                        let mut v = 0.0;
                        for o in objs.iter_mut() {
                            v = o.step(v);
                        }
                        for (p, x) in SF::from_sample(v).parts().iter().enumerate() {
                            sum[i * parts + p] += x;
                            mag[i * parts + p] += x.abs();
                        }
                    }
                }
            }
            if let Src::Silent = m.src {
                c.ev("silent_sounds", 1);
            }
            m.used += n;
        }
        for m in &self.removed {
            if let Src::Probe(s) = &m.src {
                let s = s.borrow();
                ensure!(s.outs.is_empty(), "{} (identifier {}) is still processed after its removal", m.name, m.id);
            }
        }
        let g = self.gain as f32 as f64;
        for i in 0..n {
            for (p, x) in out[i].parts().iter().enumerate() {
                let (w, m) = (sum[i * parts + p] * g, mag[i * parts + p] * g.abs());
                let tol = (3e-7 + 1.3e-7 * self.members.len() as f64) * m + 1e-38;
                ensure!(close(*x, w, tol), "sample {} of {} (part {}) is {:e} for {:e} with {} sounds, {} of them real, gain {}", i, n, p, x, w, self.members.len(), real, self.gain);
            }
            if i < 4 {
                c.sig = fnv(c.sig, out[i].parts()[0].to_bits());
            }
        }
        c.ev("track_samples", n as u64);
        c.ev("sound_samples", (n * self.members.len()) as u64);
        c.ev("process_calls", 1);
        if self.members.is_empty() {
            c.ev("empty_calls", 1);
        }
        Ok(())
    }
}

fn chan_gain(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => 0.0,
        1 => *r.pick(&[1.0, -1.0, 0.5, 2.0]),
        _ => r.uni(-2.0, 2.0),
    }
}

fn time(r: &mut Rng, max: f64) -> Duration {
    match r.below(6) {
        0 => Duration::default(),
        1 => Duration::from_nanos(r.below(100_000) as u64),
        2 => Duration::from_millis(r.below((max * 1000.0) as usize + 1) as u64),
        3 => Duration::from_secs_f64((r.below((max * SR) as usize + 1) as f64 + r.uni(0.05, 0.95)) / SR),
        _ => duration(r, max),
    }
}

fn mix<SF: Sf>(c: &mut Case) -> R {
    let g = chan_gain(&mut c.rng);
    let mut ch: Chan<SF> = Chan::new(g);
    let max = *c.rng.pick(&[0.0005, 0.005, 0.02]);
    let calls = c.rng.range(4, 24);
    let mut script = String::new();
    let limit = *c.rng.pick(&[1, 3, 8, 20]);
    for _ in 0..calls {
        if c.rng.chance(0.5) && ch.members.len() < limit {
            for _ in 0..c.rng.range(1, 3) {
                if c.rng.chance(0.6) {
                    ch.add_probe(&mut c.rng)?;
                } else {
                    ch.add_real(&mut c.rng)?;
                }
                script.push('+');
            }
        }
        if c.rng.chance(0.15) && !ch.members.is_empty() {
            let k = c.rng.below(ch.members.len());
            let id = ch.members[k].id;
            ch.remove(id);
            script.push('-');
        }
        if c.rng.chance(0.3) {
            ch.gain = chan_gain(&mut c.rng);
            let g = ch.gain;
            ch.ch.set_gain(g);
            c.ev("gain_changes", 1);
            script.push('g');
        }
        if c.rng.chance(0.25) {
            let d = time(&mut c.rng, max);
            ch.ch.set_process_time(d);
            ch.lens = lengths(d);
            c.ev("time_changes", 1);
            script.push_str(&format!("t{:?}", d));
        }
        for _ in 0..c.rng.range(1, 3) {
            ch.process(c)?;
            script.push('p');
        }
    }
    c.desc(format!("{}: {}", if SF::num_samples() == 1 { "mono" } else { "stereo" }, script));
    if ch.members.len() + ch.removed.len() > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Large steps and many sounds.
fn mix_large<SF: Sf>(c: &mut Case) -> R {
    let mut ch: Chan<SF> = Chan::new(0.7);
    let many = c.rng.chance(0.1);
    let n = if many { c.rng.range(250, c.t(1500, 70_000)) } else { c.rng.range(20, 150) };
    for _ in 0..n {
        ch.add_probe(&mut c.rng)?;
    }
    ch.process(c)?;
    let d = duration(&mut c.rng, if many { 0.002 } else { 0.2 });
    ch.ch.set_process_time(d);
    ch.lens = lengths(d);
    ch.process(c)?;
    for _ in 0..n / 2 {
        let k = c.rng.below(ch.members.len());
        let id = ch.members[k].id;
        ch.remove(id);
    }
    ch.process(c)?;
    while let Some(m) = ch.members.first() {
        let id = m.id;
        ch.remove(id);
    }
    ch.process(c)?;
    c.desc(format!("{} sounds, tracks of {:?}", n, d));
    c.nontrivial();
    Ok(())
}

/// Very long tracks, and short ones after them.
fn mix_huge<SF: Sf>(c: &mut Case) -> R {
    let g = chan_gain(&mut c.rng);
    let mut ch: Chan<SF> = Chan::new(g);
    let n = c.rng.range(1, 3);
    for _ in 0..n {
        ch.add_probe(&mut c.rng)?;
    }
    let mut ds = Vec::new();
    for _ in 0..c.rng.range(2, 6) {
        let d = if c.rng.chance(0.6) { Duration::from_secs_f64(c.rng.log_uni(0.5, 4.0)) } else { time(&mut c.rng, 0.1) };
        ch.ch.set_process_time(d);
        ch.lens = lengths(d);
        ch.process(c)?;
        ds.push(d);
    }
    c.desc(format!("{} sounds, tracks of {:?}", n, ds));
    c.nontrivial();
    Ok(())
}

/// Channels cloned between calls, where either one takes over.
fn mix_cloned<SF: Sf + Clone>(c: &mut Case) -> R {
    let g = chan_gain(&mut c.rng);
    let mut ch: Chan<SF> = Chan::new(g);
    let mut script = String::new();
    for _ in 0..c.rng.range(4, 30) {
        match c.rng.below(8) {
            0 | 1 if ch.members.len() < 10 => {
                if c.rng.chance(0.6) {
                    ch.add_probe(&mut c.rng)?;
                } else {
                    ch.add_real(&mut c.rng)?;
                }
                script.push('+');
            }
            2 if !ch.members.is_empty() => {
                let k = c.rng.below(ch.members.len());
                let id = ch.members[k].id;
                ch.remove(id);
                script.push('-');
            }
            3 => {
                ch.gain = chan_gain(&mut c.rng);
                let g = ch.gain;
                ch.ch.set_gain(g);
                script.push('g');
            }
            4 => {
                let d = time(&mut c.rng, 0.01);
                ch.ch.set_process_time(d);
                ch.lens = lengths(d);
                script.push('t');
            }
            5 | 6 => {
                let bits = |ch: &StandardChannel<SF>| -> Vec<u64> { ch.get_output().iter().flat_map(|s| s.parts()).map(|v| v.to_bits()).collect() };
                let before = bits(&ch.ch);
                let k = ch.ch.clone();
                ensure!(bits(&k) == before, "the clone of a channel has another track");
                let mut away = if c.rng.chance(0.3) { k } else { std::mem::replace(&mut ch.ch, k) };
                // What is done to the other one doesn't matter.
                for _ in 0..c.rng.below(4) {
                    match c.rng.below(3) {
                        0 => away.set_gain(chan_gain(&mut c.rng)),
                        1 => away.set_process_time(time(&mut c.rng, 0.01)),
                        _ => {
                            if let Some(m) = ch.members.first() {
                                away.remove_sound(m.id);
                            }
                        }
                    }
                }
                drop(away);
                ensure!(bits(&ch.ch) == before, "dropping a copy of a channel changes the track");
                c.ev("clones", 1);
                script.push('c');
            }
            _ => {
                ch.process(c)?;
                script.push('p');
            }
        }
    }
    ch.process(c)?;
    c.desc(format!("{}: {}", if SF::num_samples() == 1 { "mono" } else { "stereo" }, script));
    if script.contains('c') {
        c.nontrivial();
    }
    Ok(())
}

pub const C34: Check = Check {
    id: "C34",
    rule: "simple and complex sounds of probe blocks and of real blocks over 50 to 500 samples, channels of up to 10 sounds over 4 to 30 operations, cloned in between, once or several times in a row; either the clone or the original is changed at random and dropped and the other one goes on, with toggles, registrations, gains, connections, new blocks and (channels) sounds, removals, process times; a sound must agree in every report, call and output with a twin that was never cloned, a channel with what its sounds were asked for, as in C26, and with its track before. Non-trivial: at least one clone; distinct by outputs and scripts.",
    assumptions: &["the original and its clones are not used at the same time: they share their blocks"],
    exhaustive: false,
    fams: &[
        Fam { name: "sounds", quick: 160000, thorough: 2000000, run: crate::c_snd::takeover },
        Fam { name: "mono_channels", quick: 12000, thorough: 150000, run: mix_cloned::<Mono> },
        Fam { name: "stereo_channels", quick: 12000, thorough: 150000, run: mix_cloned::<Stereo> },
    ],
};

pub const C26: Check = Check {
    id: "C26",
    rule: "mono and stereo channels with 0 to 20 sounds (large family 150, one in ten 250 to 1500), probes that write down what they are asked for (some calling themselves paused or muted, some silent for long) and simple and complex sounds of real blocks (some paused or muted before), 4 to 70 processing calls with sounds added and removed, gain and process time (0 to 20 ms, large 200 ms, huge 4 s) changed in between; each track must have the set length, each sound must have been asked for exactly that many samples, and every sample must be the gain times the sum of the sounds' next samples (of real sounds: computed by hand). Non-trivial: at least one sound; distinct by script and outputs. Days: 3.3e7 (thorough 2.1e9) samples of one channel, each compared. Any level: values from 2^-90 to 2^96 with infinities and NaN among them, whose sums are exact, must arrive as such.",
    assumptions: &["after being added, sounds are exclusively owned by the channel", "process times within a nanosecond of a whole number of samples may be truncated either way"],
    exhaustive: false,
    fams: &[
        Fam { name: "mono", quick: 12800, thorough: 270000, run: mix::<Mono> },
        Fam { name: "stereo", quick: 12800, thorough: 270000, run: mix::<Stereo> },
        Fam { name: "mono_large", quick: 384, thorough: 6800, run: mix_large::<Mono> },
        Fam { name: "stereo_large", quick: 384, thorough: 6800, run: mix_large::<Stereo> },
        Fam { name: "mono_huge", quick: 96, thorough: 1500, run: mix_huge::<Mono> },
        Fam { name: "stereo_huge", quick: 96, thorough: 1500, run: mix_huge::<Stereo> },
        Fam { name: "mono_any_level", quick: 12000, thorough: 120000, run: crate::c_ext::channel::<Mono> },
        Fam { name: "stereo_any_level", quick: 12000, thorough: 120000, run: crate::c_ext::channel::<Stereo> },
        Fam { name: "mono_days", quick: 4, thorough: 4, run: crate::c_long::channel::<Mono> },
        Fam { name: "stereo_days", quick: 4, thorough: 4, run: crate::c_long::channel::<Stereo> },
    ],
};

// ---------------------------------------------------------------- C27

fn registry<SF: Sf>(c: &mut Case) -> R {
    let mut ch: Chan<SF> = Chan::new(1.0);
    let d = Duration::from_secs_f64(c.rng.range(1, 4) as f64 / SR + 1e-6);
    ch.ch.set_process_time(d);
    ch.lens = lengths(d);
    let ops = c.rng.log_range(10, c.t(400, 1500));
    let keep = c.rng.log_range(1, 40);
    let mut script = String::new();
    for _ in 0..ops {
        match c.rng.below(7) {
            0 | 1 | 2 => {
                if ch.members.len() >= keep {
                    // Make room, mostly at the ends.
                    let n = ch.members.len();
                    let k = *c.rng.pick(&[0, n - 1, n / 2]);
                    let id = ch.members[k].id;
                    ch.remove(id);
                    script.push('-');
                }
                if c.rng.chance(0.8) {
                    ch.add_probe(&mut c.rng)?;
                } else {
                    ch.add_real(&mut c.rng)?;
                }
                script.push('+');
                c.ev("added", 1);
            }
            3 => {
                if !ch.members.is_empty() {
                    let k = c.rng.below(ch.members.len());
                    let id = ch.members[k].id;
                    ch.remove(id);
                    c.ev("removed", 1);
                    script.push('-');
                }
            }
            4 => {
                // Identifiers that aren't there: removed ones, unknown ones.
                let id = match c.rng.below(4) {
                    0 if !ch.removed.is_empty() => ch.removed[c.rng.below(ch.removed.len())].id,
                    1 => c.rng.below(2000),
                    2 => usize::MAX - c.rng.below(3),
                    _ => ch.ids.last().map(|i| i + 1).unwrap_or(0),
                };
                if !ch.members.iter().any(|m| m.id == id) {
                    ch.remove(id);
                    c.ev("unknown_removed", 1);
                    script.push('?');
                }
            }
            _ => {
                ch.process(c)?;
                script.push('p');
            }
        }
    }
    ch.process(c)?;
    for m in ch.members.iter().chain(&ch.removed) {
        if let Src::Probe(s) = &m.src {
            ensure!(s.borrow().registered == [m.id], "{} was registered as {:?}", m.name, s.borrow().registered);
        }
    }
    c.ev("identifiers", ch.ids.len() as u64);
    let ids = ch.ids.clone();
    for i in ids {
        c.fold(i as u64);
    }
    script.truncate(300);
    c.desc(script);
    if !ch.removed.is_empty() && !ch.ids.is_empty() {
        c.nontrivial();
    }
    Ok(())
}

/// More registrations than small counters can hold.
fn registry_many<SF: Sf>(c: &mut Case) -> R {
    let mut ch = StandardChannel::<SF>::new(1.0);
    ch.set_process_time(Duration::from_secs_f64(1.5 / SR));
    let total = if c.idx == 0 { 140_000 } else { c.rng.log_range(300, 70_000) };
    let keep = c.rng.log_range(1, 12);
    let mut seen_ids = std::collections::HashSet::new();
    let mut live: Vec<(usize, Rc<RefCell<Seen>>)> = Vec::new();
    for i in 0..total {
        let seen: Rc<RefCell<Seen>> = Default::default();
        let mut s: SoundSP = Arc::new(Probe { seen: seen.clone(), rng: Rng::new(i as u64), style: 1, n: 0, id: None, says: (false, false), lull: Lull::new(1, 0.0) });
        ch.add_sound(&mut s);
        let reg = seen.borrow().registered.clone();
        ensure!(reg.len() == 1 && s.get_id() == Some(reg[0]), "sound {} was registered as {:?} and reports {:?}", i, reg, s.get_id());
        ensure!(seen_ids.insert(reg[0]), "sound {} got the identifier {} another one had before", i, reg[0]);
        drop(s);
        live.push((reg[0], seen));
        if live.len() > keep {
            let k = c.rng.below(live.len());
            let (id, seen) = live.remove(k);
            ch.remove_sound(id);
            if i % 512 < 2 {
                ch.process();
                ensure!(seen.borrow().outs.is_empty(), "sound {} is processed after its removal", id);
                for (id, s) in &live {
                    let got = std::mem::take(&mut s.borrow_mut().outs).len();
                    ensure!(got == 1, "sound {} was asked for {} samples instead of 1 after {} registrations", id, got, i + 1);
                }
                c.ev("process_calls", 1);
            }
            c.ev("removed", 1);
        }
        c.ev("added", 1);
    }
    c.desc(format!("{} registrations, {} at a time", total, keep));
    c.nontrivial();
    Ok(())
}

/// The identifier a sound reports, whatever else happens to it.
fn reports(c: &mut Case) -> R {
    let set = Set::random(&mut c.rng, 0);
    let mut a: Box<dyn Sound> = if c.idx % 2 == 0 {
        Box::new(SimpleSound::new(1.0, 1.0, real_block(&set)))
    } else {
        let mut s = ComplexSound::new(1.0, 1.0);
        let n = s.add_block(real_block(&set));
        let o = s.get_output_gain();
        s.add_connection(n, o);
        Box::new(s)
    };
    let mut want = None;
    for i in 0..200 {
        ensure!(a.get_id() == want, "after {} calls the sound reports {:?} for {:?}", i, a.get_id(), want);
        match c.rng.below(7) {
            0 | 1 => {
                let id = *c.rng.pick(&[0, 1, 2, 17, usize::MAX, 12345]);
                a.register(id);
                want = Some(id);
                c.ev("registered", 1);
            }
            2 => {
                a.unregister();
                want = None;
                c.ev("unregistered", 1);
            }
            3 => a.toggle_pause(),
            4 => a.toggle_mute(),
            _ => {
                a.process(0.5);
            }
        }
        c.fold(want.map(|i| (i as u64).wrapping_add(2)).unwrap_or(0));
    }
    c.desc(format!("registering and unregistering a {} sound", if c.idx % 2 == 0 { "simple" } else { "complex" }));
    c.nontrivial();
    Ok(())
}

pub const C27: Check = Check {
    id: "C27",
    rule: "mono and stereo channels over histories of 10 to 400 (thorough 1500; many family 140000) additions, removals, removals of unknown and already removed identifiers and processing calls; every sound must be registered exactly once with an identifier not used before, and in every processing call exactly the sounds present must be asked for samples and add up; sounds registered and unregistered at random must report accordingly. Non-trivial: something removed; distinct by history.",
    assumptions: &["after being added, sounds are exclusively owned by the channel"],
    exhaustive: false,
    fams: &[
        Fam { name: "mono", quick: 96000, thorough: 480000, run: registry::<Mono> },
        Fam { name: "stereo", quick: 96000, thorough: 480000, run: registry::<Stereo> },
        Fam { name: "mono_many", quick: 12, thorough: 300, run: registry_many::<Mono> },
        Fam { name: "stereo_many", quick: 12, thorough: 300, run: registry_many::<Stereo> },
        Fam { name: "reports", quick: 32000, thorough: 240000, run: reports },
    ],
};
