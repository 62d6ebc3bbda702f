//! C32: components are independent of each other, of threads and of what has
//! happened in the process before.

use crate::c_clone::{Obj, Op, Set, KINDS};
use crate::c_snd::real_block;
use crate::ensure;
use crate::rng::*;
use crate::rt::*;
use crate::util::*;
use bae_rs::channels::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sample_format::{Mono, SampleFormat, Stereo};
use bae_rs::sounds::*;
use bae_rs::utils::*;
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};
use std::time::Duration;

/// A component and all calls made on it, derived from a seed.
#[derive(Clone)]
pub struct Script {
    kind: usize,
    sets: Vec<Set>,
    gains: (f64, f64),
    edges: Vec<(usize, usize)>,
    steps: Vec<(Option<Act>, f32)>,
}

#[derive(Clone)]
enum Act {
    Op(Op),
    Pause,
    Mute,
    InGain(f64),
    OutGain(f64),
}

const SINGLE: usize = KINDS.len();
const ZERO: usize = SINGLE;
const BLOCK: usize = SINGLE + 1;
const SIMPLE: usize = SINGLE + 2;
const COMPLEX: usize = SINGLE + 3;
const MONO: usize = SINGLE + 4;
const STEREO: usize = SINGLE + 5;
const ALL: usize = SINGLE + 6;

enum Thing {
    Obj(Obj),
    Zero(Zero),
    Block(BlockSP),
    Simple(SimpleSound),
    Complex(ComplexSound),
    Mono(StandardChannel<Mono>),
    Stereo(StandardChannel<Stereo>),
}

fn gen_set(r: &mut Rng) -> Set {
    let k = r.below(7);
    Set::random(r, k)
}

fn mod_set(r: &mut Rng) -> Set {
    let k = r.range(7, SINGLE - 1);
    Set::random(r, k)
}

impl Script {
    pub fn new(seed: u64) -> Script {
        let mut r = Rng::new(seed);
        let kind = r.below(ALL);
        let mut s = Script { kind, sets: vec![], gains: (r.uni(-1.0, 1.0), r.uni(-1.0, 1.0)), edges: vec![], steps: vec![] };
        let mut n = r.log_range(50, 1500);
        match kind {
            ZERO => (),
            BLOCK => {
                s.sets.push(gen_set(&mut r));
                s.sets.push(mod_set(&mut r));
            }
            SIMPLE => {
                s.sets.push(if r.chance(0.5) { gen_set(&mut r) } else { mod_set(&mut r) });
                for _ in 0..r.below(4) {
                    let m = mod_set(&mut r);
                    s.sets.push(m);
                }
            }
            COMPLEX => {
                let b = r.range(1, 6);
                for _ in 0..b {
                    let m = if r.chance(0.3) { gen_set(&mut r) } else { mod_set(&mut r) };
                    s.sets.push(m);
                }
                for _ in 0..r.range(1, 3 * b + 2) {
                    s.edges.push((r.below(b + 2), r.below(b + 2)));
                }
                n = n.min(400);
            }
            MONO | STEREO => {
                // The order in which a channel adds up more is not fixed.
                for _ in 0..r.range(1, 2) {
                    let m = gen_set(&mut r);
                    s.sets.push(m);
                }
                n = r.range(2, 6);
            }
            k => s.sets.push(Set::random(&mut r, k)),
        }
        let x = signal(&mut r, n);
        let p = *r.pick(&[0.0, 0.01, 0.1]);
        for x in x {
            let a = if p > 0.0 && r.chance(p) {
                match kind {
                    ZERO | BLOCK | MONO | STEREO => None,
                    SIMPLE => Some(match r.below(4) {
                        0 => Act::Pause,
                        1 => Act::Mute,
                        2 => Act::InGain(r.uni(-1.0, 1.0)),
                        _ => Act::OutGain(r.uni(-1.0, 1.0)),
                    }),
                    COMPLEX => Some(if r.chance(0.5) { Act::Pause } else { Act::Mute }),
                    _ => s.sets[0].random_op(&mut r).map(Act::Op),
                }
            } else {
                None
            };
            s.steps.push((a, x));
        }
        s
    }

    pub fn name(&self) -> String {
        match self.kind {
            ZERO => "zero".into(),
            BLOCK => "block".into(),
            SIMPLE => "simple sound".into(),
            COMPLEX => "complex sound".into(),
            MONO => "mono channel".into(),
            STEREO => "stereo channel".into(),
            k => KINDS[k].into(),
        }
    }

    fn describe(&self) -> String {
        let s = format!("{} {:?}", self.name(), self.sets);
        s.chars().take(160).collect()
    }

    fn len(&self) -> usize {
        self.steps.len()
    }

    fn make(&self) -> Thing {
        match self.kind {
            ZERO => Thing::Zero(Zero::new()),
            BLOCK => Thing::Block(both(&self.sets[0], &self.sets[1])),
            SIMPLE => {
                let mut s = SimpleSound::new(self.gains.0, self.gains.1, real_block(&self.sets[0]));
                for m in &self.sets[1..] {
                    s.extend_modifiers(vec![real_block(m)]);
                }
                Thing::Simple(s)
            }
            COMPLEX => {
                let mut s = ComplexSound::new(self.gains.0, self.gains.1);
                let mut nodes = vec![s.get_input_gain(), s.get_output_gain()];
                for m in &self.sets {
                    nodes.push(s.add_block(real_block(m)));
                }
                for (a, b) in &self.edges {
                    s.add_connection(nodes[*a], nodes[*b]);
                }
                Thing::Complex(s)
            }
            MONO => Thing::Mono(self.channel()),
            STEREO => Thing::Stereo(self.channel()),
            _ => Thing::Obj(self.sets[0].make()),
        }
    }

    fn channel<S: SampleFormat>(&self) -> StandardChannel<S> {
        let mut c = StandardChannel::new(self.gains.0);
        c.set_process_time(Duration::from_millis(2));
        for s in &self.sets {
            let mut s: Arc<dyn Sound> = Arc::new(SimpleSound::new(self.gains.1, 0.5, real_block(s)));
            c.add_sound(&mut s);
        }
        c
    }

    /// One call; the outputs are appended.
    fn step(&self, t: &mut Thing, i: usize, out: &mut Vec<f32>) {
        let (act, x) = &self.steps[i];
        match (act, &mut *t) {
            (None, _) => (),
            (Some(Act::Op(o)), Thing::Obj(t)) => t.apply(o),
            (Some(Act::Pause), Thing::Simple(t)) => t.toggle_pause(),
            (Some(Act::Mute), Thing::Simple(t)) => t.toggle_mute(),
            (Some(Act::InGain(g)), Thing::Simple(t)) => t.set_input_gain(*g),
            (Some(Act::OutGain(g)), Thing::Simple(t)) => t.set_output_gain(*g),
            (Some(Act::Pause), Thing::Complex(t)) => t.toggle_pause(),
            (Some(Act::Mute), Thing::Complex(t)) => t.toggle_mute(),
            _ => panic!("act"),
        }
        match t {
            Thing::Obj(o) => out.push(o.step(*x)),
            Thing::Zero(z) => out.push(z.process()),
            Thing::Block(b) => {
                let b = Arc::get_mut(b).expect("block");
                b.prime_input(*x);
                out.push(b.process());
            }
            Thing::Simple(s) => out.push(s.process(*x)),
            Thing::Complex(s) => out.push(s.process(*x)),
            Thing::Mono(c) => {
                c.process();
                out.extend(c.get_output().iter().map(|m| m.mono));
            }
            Thing::Stereo(c) => {
                c.process();
                for s in c.get_output() {
                    out.push(s.left);
                    out.push(s.right);
                }
            }
        }
    }

    pub fn run(&self) -> Vec<f32> {
        let mut t = self.make();
        let mut v = Vec::new();
        for i in 0..self.len() {
            self.step(&mut t, i, &mut v);
        }
        v
    }
}

fn both(g: &Set, m: &Set) -> BlockSP {
    struct G(Obj);
    impl Generator for G {
        fn process(&mut self) -> f32 {
            self.0.step(0.0)
        }
    }
    struct M(Obj);
    impl Modifier for M {
        fn process(&mut self, x: f32) -> f32 {
            self.0.step(x)
        }
    }
    Arc::new(StandardBlock::new(G(g.make()), M(m.make()), Arc::new(|a, b| a - 0.5 * b)))
}

fn bits(v: &[f32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect()
}

/// Equality of two runs of a script, sample for sample.
fn equal(what: &str, s: &Script, got: &[f32], want: &[f32]) -> R {
    ensure!(got.len() == want.len(), "{}: {} gives {} samples, alone {}", what, s.describe(), got.len(), want.len());
    for i in 0..got.len() {
        ensure!(
            same(got[i], want[i]),
            "{}: sample {} of {} is {:e}, when used alone {:e}", what, i, s.describe(), got[i], want[i]
        );
    }
    Ok(())
}

/// The script run in a process that does nothing else.
fn alone(seed: u64) -> Result<Vec<f32>, Fail> {
    let o = Command::new(std::env::current_exe().expect("exe"))
        .args(["lone", &seed.to_string()])
        .stdin(Stdio::null())
        .output()
        .expect("child");
    match o.status.code() {
        Some(0) => Ok(o.stdout.chunks_exact(4).map(|b| f32::from_bits(u32::from_le_bytes([b[0], b[1], b[2], b[3]]))).collect()),
        Some(3) => Err(Fail::new(format!("alone in a process: {}", String::from_utf8_lossy(&o.stderr)))),
        _ => panic!("child ended with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr)),
    }
}

/// The child of `alone`.
pub fn lone(seed: u64) -> i32 {
    use std::io::Write;
    match guard(|| Script::new(seed).run()) {
        Ok(v) => {
            if std::io::stdout().write_all(&bits(&v)).is_err() {
                return 4;
            }
            0
        }
        Err(p) => {
            eprintln!("panicked at {}:{}: {}", p.file, p.line, p.msg);
            if p.in_harness() { 4 } else { 3 }
        }
    }
}

/// Other things going on in between.
fn distract(r: &mut Rng) {
    match r.below(7) {
        0 => {
            let k = r.below(SINGLE);
            let mut o = Set::random(r, k).make();
            for _ in 0..r.below(20) {
                let x = r.sample();
                o.step(x);
            }
        }
        1 => {
            let mut n = Noise::new();
            for _ in 0..r.below(20) {
                n.process();
            }
        }
        2 => {
            let mut t: Vec<f32> = (0..20).map(|_| r.sample()).collect();
            normalize(-3.0, &mut t);
            let mut b = Vec::new();
            let _ = write_wav(vec![t], 16, &mut b, true);
            let _ = read_wav(&mut &b[..]);
        }
        3 => {
            // Another component of the same settings as one may run.
            let k = r.below(SINGLE);
            let s = Set::random(r, k);
            let (mut a, mut b) = (s.make(), s.make());
            for _ in 0..r.below(10) {
                let x = r.sample();
                a.step(x);
                b.step(-x);
            }
            let mut d = a.clone();
            d.step(0.5);
        }
        4 => {
            let _ = Stereo::from_sample(0.3).apply_to(r);
        }
        5 => {
            let _ = Script::new(r.u64()).make();
        }
        _ => {
            let mut c = StandardChannel::<Mono>::new(0.5);
            c.set_process_time(Duration::from_millis(1));
            let mut s: Arc<dyn Sound> = Arc::new(SimpleSound::new(1.0, 1.0, real_block(&Set::Osc(0, 440.0))));
            c.add_sound(&mut s);
            c.process();
        }
    }
}

trait ApplyTo {
    fn apply_to(self, r: &mut Rng) -> f32;
}
impl ApplyTo for Stereo {
    fn apply_to(self, r: &mut Rng) -> f32 {
        (self * r.sample()).left
    }
}

/// Runs all scripts call by call in random turns.
fn in_turns(r: &mut Rng, scripts: &[Script], busy: bool) -> Vec<Vec<f32>> {
    let mut things: Vec<Option<Thing>> = scripts.iter().map(|_| None).collect();
    let mut at = vec![0; scripts.len()];
    let mut outs: Vec<Vec<f32>> = scripts.iter().map(|_| Vec::new()).collect();
    let all_first = r.chance(0.5);
    if all_first {
        let mut order: Vec<usize> = (0..scripts.len()).collect();
        r.shuffle(&mut order);
        for k in order {
            things[k] = Some(scripts[k].make());
        }
    }
    let mut left: Vec<usize> = (0..scripts.len()).collect();
    while !left.is_empty() {
        let j = r.below(left.len());
        let k = left[j];
        if things[k].is_none() {
            things[k] = Some(scripts[k].make());
        }
        let burst = if r.chance(0.7) { 1 } else { r.log_range(1, 50) };
        for _ in 0..burst {
            if at[k] == scripts[k].len() {
                break;
            }
            if let Some(t) = &mut things[k] {
                scripts[k].step(t, at[k], &mut outs[k]);
            }
            at[k] += 1;
        }
        if at[k] == scripts[k].len() {
            left.swap_remove(j);
            things[k] = None;
        }
        if busy && r.chance(0.05) {
            distract(r);
        }
    }
    outs
}

fn seeds(c: &mut Case, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n).map(|_| c.rng.u64() >> 1).collect();
    // Twins: the same script more than once.
    if n > 2 && c.rng.chance(0.5) {
        v[1] = v[0];
    }
    v
}

/// Kin of a script: the same kind of component.
fn alike(c: &mut Case, v: &mut Vec<u64>) {
    let kind = Script::new(v[0]).kind;
    for x in v.iter_mut().skip(1) {
        for _ in 0..200 {
            let s = c.rng.u64() >> 1;
            if Script::new(s).kind == kind {
                *x = s;
                break;
            }
        }
    }
}

fn interleaved(c: &mut Case) -> R {
    let n = c.rng.range(2, 9);
    let mut v = seeds(c, n);
    if c.rng.chance(0.4) {
        alike(c, &mut v);
    }
    let scripts: Vec<Script> = v.iter().map(|s| Script::new(*s)).collect();
    c.desc(format!("{} components in random turns: {:?}", n, scripts.iter().map(|s| s.name()).collect::<Vec<_>>()));
    let busy = c.rng.chance(0.7);
    // Before or after using each alone in this process.
    let before = c.rng.chance(0.5);
    let mut lone: Vec<Vec<f32>> = Vec::new();
    if before {
        lone = scripts.iter().map(|s| s.run()).collect();
    }
    let outs = in_turns(&mut c.rng, &scripts, busy);
    if !before {
        lone = scripts.iter().map(|s| s.run()).collect();
    }
    for k in 0..n {
        equal("in turns with others", &scripts[k], &outs[k], &lone[k])?;
        c.ev("samples", outs[k].len() as u64);
        for y in outs[k].iter().take(20) {
            c.fold_f(*y);
        }
    }
    c.ev("components", n as u64);
    c.nontrivial();
    Ok(())
}

fn pristine(c: &mut Case) -> R {
    let n = c.rng.range(2, 5);
    let v = seeds(c, n);
    let scripts: Vec<Script> = v.iter().map(|s| Script::new(*s)).collect();
    c.desc(format!("{} components, each alone in a process of its own and in turns here: {:?}", n, scripts.iter().map(|s| s.name()).collect::<Vec<_>>()));
    let outs = in_turns(&mut c.rng, &scripts, true);
    for k in 0..n {
        let want = alone(v[k])?;
        equal("in a process with others", &scripts[k], &outs[k], &want)?;
        c.ev("lone_processes", 1);
        c.ev("samples", want.len() as u64);
        for y in outs[k].iter().take(20) {
            c.fold_f(*y);
        }
    }
    c.ev("components", n as u64);
    c.nontrivial();
    Ok(())
}

/// All scripts at once, on threads of their own.
fn at_once(r: &mut Rng, scripts: &[Script], all: bool) -> Result<Vec<Vec<f32>>, Fail> {
    let b = Arc::new(Barrier::new(scripts.len()));
    let hs: Vec<_> = scripts
        .iter()
        .map(|s| {
            let (s, b, mut r) = (s.clone(), b.clone(), Rng::new(r.u64()));
            spawn(move || {
                b.wait();
                let mut t = s.make();
                let mut v = Vec::new();
                for i in 0..s.len() {
                    s.step(&mut t, i, &mut v);
                    match if all { r.below(40) } else { 40 } {
                        0 => std::thread::yield_now(),
                        1 => {
                            for _ in 0..r.below(300) {
                                std::hint::spin_loop();
                            }
                        }
                        2 => distract(&mut r),
                        _ => (),
                    }
                }
                v
            })
        })
        .collect();
    // All are joined, whatever one of them does.
    let rs: Vec<_> = hs.into_iter().map(join).collect();
    rs.into_iter().collect()
}

fn threads(c: &mut Case) -> R {
    let n = c.rng.range(2, 8);
    let mut v = seeds(c, n);
    if c.rng.chance(0.4) {
        alike(c, &mut v);
    }
    let scripts: Vec<Script> = v.iter().map(|s| Script::new(*s)).collect();
    c.desc(format!("{} components on threads of their own: {:?}", n, scripts.iter().map(|s| s.name()).collect::<Vec<_>>()));
    let outs = at_once(&mut c.rng, &scripts, true)?;
    for k in 0..n {
        equal("on a thread among others", &scripts[k], &outs[k], &scripts[k].run())?;
        c.ev("samples", outs[k].len() as u64);
        for y in outs[k].iter().take(20) {
            c.fold_f(*y);
        }
    }
    c.ev("threads", n as u64);
    c.nontrivial();
    Ok(())
}

/// Driven directly and through a block.
fn through_block(c: &mut Case) -> R {
    let kind = c.idx as usize % SINGLE;
    let s = Set::random(&mut c.rng, kind);
    let mut o = s.make();
    let mut b = real_block(&s);
    let n = c.rng.range(200, 2000);
    let x = signal(&mut c.rng, n);
    c.desc(format!("{} directly and through a block", KINDS[kind]));
    for i in 0..n {
        let b = Arc::get_mut(&mut b).expect("block");
        let y = o.step(x[i]);
        if c.rng.chance(0.5) || kind >= 7 {
            b.prime_input(x[i]);
        }
        let w = b.process();
        ensure!(same(y, w), "sample {} of {} ({}) is {:e}, through a block {:e}", i, KINDS[kind], crate::c_snd::kinds(&[s]).join(""), y, w);
        if i < 30 {
            c.fold_f(y);
        }
    }
    c.ev("through_blocks", n as u64);
    c.nontrivial();
    Ok(())
}

/// First use of everything by several threads of a new process at once.
fn first_use(c: &mut Case) -> R {
    let seed = c.rng.u64() >> 1;
    c.desc(format!("first use by eight threads of a process, seed {}", seed));
    let o = Command::new(std::env::current_exe().expect("exe"))
        .args(["firstuse", &seed.to_string()])
        .stdin(Stdio::null())
        .output()
        .expect("child");
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    match o.status.code() {
        Some(0) => (),
        Some(3) => return Err(Fail::new(text)),
        Some(_) => panic!("child ended with {:?}: {} {}", o.status, text, String::from_utf8_lossy(&o.stderr)),
        None => return Err(Fail::new(format!("the process died: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr)))),
    }
    c.ev("first_use_processes", 1);
    c.ev("first_use_samples", text.trim().parse().unwrap_or(0));
    c.fold(seed);
    c.nontrivial();
    Ok(())
}

/// The child of `first_use`.
pub fn first_use_child(seed: u64) -> i32 {
    let mut r = Rng::new(seed);
    let mut scripts: Vec<Script> = Vec::new();
    // Sine first in most threads: it has the shared table.
    for k in 0..8 {
        let mut s = Script::new(r.u64());
        if k < 4 || r.chance(0.5) {
            s = Script {
                kind: 0,
                sets: vec![Set::Osc(0, freq(&mut r))],
                gains: (1.0, 1.0),
                edges: vec![],
                steps: (0..64).map(|_| (None, 0.0)).collect(),
            };
        }
        scripts.push(s);
    }
    let outs = match at_once(&mut r, &scripts, false) {
        Ok(o) => o,
        Err(f) => {
            println!("{}", f.msg);
            return 3;
        }
    };
    let mut n = 0;
    for (s, o) in scripts.iter().zip(&outs) {
        if let Err(f) = equal("first used on a thread among others", s, o, &s.run()) {
            println!("{}", f.msg);
            return 3;
        }
        n += o.len();
    }
    println!("{}", n);
    0
}

/// The race detector of Miri, over concurrent first use. The aliasing model is
/// off: it is experimental, and petgraph 0.5 (index_twice_mut) breaks it.
fn miri(c: &mut Case) -> R {
    let dir = verif_dir().join("harness");
    let n = c.t(16, 64);
    let from = (c.rng.u32() >> 8) as u64;
    c.desc(format!("Miri, schedules {}..{}", from, from + n));
    let o = Command::new("timeout")
        .args(["-k", "5", if c.thorough { "600" } else { "300" }])
        .args(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked"])
        .arg("--manifest-path").arg(dir.join("miri/Cargo.toml"))
        .arg("--target-dir").arg(dir.join("target/miri"))
        .env("XDG_CACHE_HOME", dir.join("target/cache"))
        .env_remove("RUSTUP_TOOLCHAIN")
        .env("MIRIFLAGS", format!("-Zmiri-many-seeds={}..{} -Zmiri-preemption-rate=0.2 -Zmiri-disable-stacked-borrows", from, from + n))
        .stdin(Stdio::null())
        .output()
        .expect("timeout");
    let (out, err) = (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
    let ran = out.lines().filter(|l| l.starts_with("samples ")).count() as u64;
    if let Some(i) = err.find("Undefined Behavior") {
        let i = (0..=i).rev().find(|k| err.is_char_boundary(*k) && i - k <= 10).unwrap_or(i);
        return Err(Fail::new(format!("Miri: {}", err[i..].chars().take(1200).collect::<String>())));
    }
    if let Some(i) = err.find("panicked at") {
        return Err(Fail::new(format!("under Miri: {}", err[i..].chars().take(600).collect::<String>())));
    }
    if !o.status.success() || ran == 0 {
        panic!("Miri ended with {:?} after {} runs: {}", o.status, ran, err.chars().rev().take(800).collect::<String>().chars().rev().collect::<String>());
    }
    c.ev("miri_schedules", ran);
    c.fold(from);
    c.nontrivial();
    Ok(())
}

/// Something asked for one sample at a time.
type Source = Box<dyn FnMut() -> f32>;

/// A level of nesting: something of the library with other things in it, one of
/// which asks `child` for a sample.
#[derive(Clone, Debug)]
struct Level {
    kind: usize,
    sets: Vec<Set>,
    gains: (f64, f64),
    edges: Vec<(usize, usize)>,
}

const LEVELS: [&str; 7] = ["interactor", "generator", "modifier", "simple sound's generator block", "simple sound's modifier block", "complex sound's block", "channel's sound"];

struct FromChild(Source);
impl Generator for FromChild {
    fn process(&mut self) -> f32 {
        (self.0)()
    }
}
impl Modifier for FromChild {
    fn process(&mut self, x: f32) -> f32 {
        0.5 * x + (self.0)()
    }
}
struct ChildBlock(f32, Source);
impl Block for ChildBlock {
    fn prime_input(&mut self, x: f32) {
        self.0 += x;
    }
    fn process(&mut self) -> f32 {
        let x = std::mem::replace(&mut self.0, 0.0);
        0.5 * x + (self.1)()
    }
}
struct ChildSound(Option<usize>, Source);
impl Sound for ChildSound {
    fn toggle_pause(&mut self) {}
    fn is_paused(&self) -> bool {
        false
    }
    fn toggle_mute(&mut self) {}
    fn is_muted(&self) -> bool {
        false
    }
    fn register(&mut self, id: usize) {
        self.0 = Some(id);
    }
    fn unregister(&mut self) {
        self.0 = None;
    }
    fn process(&mut self, _: f32) -> f32 {
        (self.1)()
    }
    fn get_id(&self) -> Option<usize> {
        self.0
    }
}

impl Level {
    fn random(r: &mut Rng) -> Level {
        let kind = r.below(LEVELS.len());
        let b = r.range(1, 4);
        let sets = (0..b).map(|k| if k == 0 || r.chance(0.3) { gen_set(r) } else { mod_set(r) }).collect();
        let edges = (0..r.range(1, 2 * b + 2)).map(|_| (r.below(b + 3), r.below(b + 3))).collect();
        Level { kind, sets, gains: (r.uni(-1.0, 1.0), r.uni(-1.0, 1.0)), edges }
    }

    fn make(&self, mut child: Source, mut input: Vec<f32>) -> Source {
        input.reverse();
        let mut x = move || input.pop().unwrap_or(0.0);
        struct G(Obj);
        impl Generator for G {
            fn process(&mut self) -> f32 {
                self.0.step(0.0)
            }
        }
        match self.kind {
            0 => {
                let mut b = StandardBlock::new(G(self.sets[0].make()), Passthrough::new(), Arc::new(move |a, b| 0.3 * a - 0.5 * b + child()));
                Box::new(move || {
                    b.prime_input(x());
                    b.process()
                })
            }
            1 => {
                let mut b = StandardBlock::new(FromChild(child), Passthrough::new(), Arc::new(|a, b| a + 0.25 * b));
                Box::new(move || {
                    b.prime_input(x());
                    b.process()
                })
            }
            2 => {
                let mut b = StandardBlock::new(G(self.sets[0].make()), FromChild(child), Arc::new(|a, b| 0.2 * a + b));
                Box::new(move || {
                    b.prime_input(x());
                    b.process()
                })
            }
            3 | 4 => {
                let block: BlockSP = Arc::new(ChildBlock(0.0, child));
                let mut blocks: Vec<BlockSP> = self.sets.iter().map(real_block).collect();
                if self.kind == 3 {
                    blocks.insert(0, block);
                } else {
                    blocks.push(block);
                }
                let mut s = SimpleSound::new(self.gains.0, self.gains.1, blocks.remove(0));
                s.extend_modifiers(blocks);
                Box::new(move || s.process(x()))
            }
            5 => {
                let mut s = ComplexSound::new(self.gains.0, self.gains.1);
                let mut nodes = vec![s.get_input_gain(), s.get_output_gain(), s.add_block(Arc::new(ChildBlock(0.0, child)))];
                for m in &self.sets {
                    nodes.push(s.add_block(real_block(m)));
                }
                s.add_connection(nodes[2], nodes[1]);
                for (a, b) in &self.edges {
                    s.add_connection(nodes[*a], nodes[*b]);
                }
                Box::new(move || s.process(x()))
            }
            _ => {
                let mut c = StandardChannel::<Mono>::new(self.gains.0);
                c.set_process_time(Duration::from_nanos(1_500_000_000 / SAMPLE_RATE as u64));
                let mut s: Arc<dyn Sound> = Arc::new(ChildSound(None, child));
                c.add_sound(&mut s);
                drop(s);
                Box::new(move || {
                    c.process();
                    c.get_output().first().map_or(0.0, |m| m.mono)
                })
            }
        }
    }
}

/// A sample of a source, kept.
fn logged(mut s: Source, log: Arc<std::sync::Mutex<Vec<f32>>>) -> Source {
    Box::new(move || {
        let y = s();
        log.lock().expect("log").push(y);
        y
    })
}

/// Components driven from within others.
fn nested(c: &mut Case) -> R {
    let depth = c.rng.range(1, 4);
    let n = c.rng.log_range(20, 400);
    let mut levels: Vec<Level> = (0..depth).map(|_| Level::random(&mut c.rng)).collect();
    if depth > 1 && c.rng.chance(0.4) {
        // One kind within itself.
        let k = levels[0].kind;
        for l in levels.iter_mut() {
            l.kind = k;
        }
    }
    let inputs: Vec<Vec<f32>> = (0..depth).map(|_| signal(&mut c.rng, n)).collect();
    let set = Set::random(&mut c.rng, 0);
    let kind = c.rng.below(SINGLE);
    let leaf_set = if c.rng.chance(0.3) { set } else { Set::random(&mut c.rng, kind) };
    let leaf_in = signal(&mut c.rng, n);
    let leaf = |s: &Set| -> Source {
        let (mut o, x) = (s.make(), leaf_in.clone());
        let mut i = 0;
        Box::new(move || {
            i += 1;
            o.step(x[(i - 1) % x.len()])
        })
    };
    c.desc(format!("{} samples, from the inside: {:?}", n, levels.iter().map(|l| LEVELS[l.kind]).collect::<Vec<_>>()));
    // Each level alone, with a recording of what is within it.
    let mut alone: Vec<Vec<f32>> = Vec::new();
    let mut s = leaf(&leaf_set);
    alone.push((0..n).map(|_| s()).collect());
    for (l, x) in levels.iter().zip(&inputs) {
        let mut inner = alone[alone.len() - 1].clone().into_iter();
        let mut s = l.make(Box::new(move || inner.next().unwrap_or(0.0)), x.clone());
        alone.push((0..n).map(|_| s()).collect());
    }
    // All of them at once.
    let logs: Vec<Arc<std::sync::Mutex<Vec<f32>>>> = (0..=depth).map(|_| Default::default()).collect();
    let mut s = logged(leaf(&leaf_set), logs[0].clone());
    for (k, l) in levels.iter().enumerate() {
        s = logged(l.make(s, inputs[k].clone()), logs[k + 1].clone());
    }
    for _ in 0..n {
        s();
    }
    for k in 0..=depth {
        let got = logs[k].lock().expect("log");
        let what = if k == 0 { "the innermost component" } else { LEVELS[levels[k - 1].kind] };
        ensure!(got.len() == n, "nested: {} gave {} samples for {} calls", what, got.len(), n);
        for i in 0..n {
            ensure!(
                same(got[i], alone[k][i]),
                "nested in {:?}: sample {} of level {} ({}) is {:e}, when driven alone {:e}",
                levels.iter().map(|l| LEVELS[l.kind]).collect::<Vec<_>>(), i, k, what, got[i], alone[k][i]
            );
        }
        for y in got.iter().take(10) {
            c.fold_f(*y);
        }
    }
    c.ev("nested_levels", depth as u64);
    c.ev("samples", ((depth + 1) * n) as u64);
    c.nontrivial();
    Ok(())
}

/// Time going by between calls is nothing to a component.
fn rests(c: &mut Case) -> R {
    let n = 300;
    let scripts: Vec<Script> = seeds(c, n).iter().map(|s| Script::new(*s)).collect();
    let rests: &[u64] = if c.thorough { &[0, 20, 61_000, 3000] } else { &[0, 20, 1200] };
    c.desc(format!("{} components with rests of {:?} ms", n, rests));
    let mut things: Vec<Thing> = scripts.iter().map(|s| s.make()).collect();
    let mut outs: Vec<Vec<f32>> = scripts.iter().map(|_| Vec::new()).collect();
    let mut at = vec![0; n];
    for (i, ms) in rests.iter().enumerate() {
        std::thread::sleep(Duration::from_millis(*ms));
        for k in 0..n {
            let to = scripts[k].len() * (i + 1) / rests.len();
            while at[k] < to {
                scripts[k].step(&mut things[k], at[k], &mut outs[k]);
                at[k] += 1;
            }
        }
    }
    for k in 0..n {
        equal("with rests between calls", &scripts[k], &outs[k], &scripts[k].run())?;
        c.ev("samples", outs[k].len() as u64);
        c.fold_f(outs[k].last().copied().unwrap_or(0.0));
    }
    c.ev("rested_components", n as u64);
    c.nontrivial();
    Ok(())
}

/// What one thread hands over to another, with nothing of it left behind.
struct Handed<T>(T);
unsafe impl<T> Send for Handed<T> {}

/// A component made here and used on other threads, one after another.
fn moved(c: &mut Case) -> R {
    let kind = c.idx as usize % SINGLE;
    let set = Set::random(&mut c.rng, kind);
    let n = c.rng.log_range(20, 1000);
    let x = signal(&mut c.rng, n);
    c.desc(format!("{} used on one thread after another", KINDS[kind]));
    let p = *c.rng.pick(&[0.0, 0.01, 0.1]);
    let mut ops: Vec<Option<Op>> = Vec::new();
    for _ in 0..n {
        let op = if c.rng.chance(p) { set.random_op(&mut c.rng) } else { None };
        ops.push(op);
    }
    let steps: Arc<Vec<(Option<Op>, f32)>> = Arc::new(ops.into_iter().zip(x).collect());
    let run = |o: &mut Obj, steps: &[(Option<Op>, f32)]| -> Vec<f32> {
        steps
            .iter()
            .map(|(op, x)| {
                if let Some(op) = op {
                    o.apply(op);
                }
                o.step(*x)
            })
            .collect()
    };
    let want = run(&mut set.make(), &steps);
    let mut obj = Handed(set.make());
    let (mut at, mut got) = (0, Vec::new());
    while at < n {
        let to = (at + c.rng.log_range(1, n)).min(n);
        let steps = steps.clone();
        let other = set.clone();
        let (o, v) = join(spawn(move || {
            let mut h = obj;
            // One of the same kind of this thread's own.
            let mut own = other.make();
            own.step(0.25);
            let v = run(&mut h.0, &steps[at..to]);
            own.step(0.5);
            (h, v)
        }))?;
        obj = o;
        got.extend(v);
        at = to;
        c.ev("handed_over", 1);
    }
    for i in 0..n {
        ensure!(same(got[i], want[i]), "handed from thread to thread: sample {} of {} is {:e}, on one thread {:e}", i, KINDS[kind], got[i], want[i]);
        if i < 20 {
            c.fold_f(got[i]);
        }
    }
    c.ev("samples", n as u64);
    c.nontrivial();
    Ok(())
}

pub const C32: Check = Check {
    id: "C32",
    rule: "scripts of calls on every kind of oscillator, resampler, wave player, modifier, block, simple and complex sound and channel (settings, setting changes, toggles and inputs from a seed): run in random turns with up to eight others (of the same kind, or the very same script) and unrelated uses of the library in between, on threads of their own all at once, and each alone in a process that does nothing else: all outputs must agree bit for bit; components driven directly and through a block, with rests between calls, handed from thread to thread, and from within one another (blocks, sounds and channels as part of interactors, generators, modifiers, blocks and sounds of others) must agree as well; new processes in which eight threads use everything for the first time at once; concurrent first use under Miri's race detector and undefined-behaviour checks over many schedules. Non-trivial: always; distinct by outputs and seeds.",
    assumptions: &["blocks, sounds and channels are created and used on one thread, as their types demand"],
    exhaustive: false,
    fams: &[
        Fam { name: "miri", quick: 1, thorough: 4, run: miri },
        Fam { name: "interleaved", quick: 3000, thorough: 60000, run: interleaved },
        Fam { name: "threads", quick: 400, thorough: 8000, run: threads },
        Fam { name: "pristine", quick: 300, thorough: 6000, run: pristine },
        Fam { name: "block", quick: 1800, thorough: 36000, run: through_block },
        Fam { name: "rests", quick: 1, thorough: 2, run: rests },
        Fam { name: "nested", quick: 6000, thorough: 120000, run: nested },
        Fam { name: "moved", quick: 720, thorough: 14400, run: moved },
        Fam { name: "first_use", quick: 300, thorough: 8000, run: first_use },
    ],
};
