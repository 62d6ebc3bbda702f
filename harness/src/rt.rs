//! Runs the cases of a check: schedules them over threads, watches for panics,
//! runaway computations and crashes, and writes down what was observed.

use crate::alloc;
use crate::rng::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Fail {
    pub msg: String,
    /// What identifies the failure in the list of known findings.
    pub sig: Option<String>,
}

impl Fail {
    pub fn new(msg: String) -> Self {
        Fail { msg, sig: None }
    }
}

pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        #[allow(clippy::neg_cmp_op_on_partial_ord)]
        if !($c) {
            return Err($crate::rt::Fail::new(format!($($a)*)));
        }
    };
}

/// One case: its random numbers and what was observed while running it.
pub struct Case {
    pub rng: Rng,
    pub thorough: bool,
    pub idx: u64,
    pub events: BTreeMap<&'static str, u64>,
    pub sig: u64,
    pub nontrivial: bool,
    pub desc: String,
    /// Failures that may be known ones, which don't end the case.
    pub soft: Vec<Fail>,
    start: u64,
}

impl Case {
    /// Whether this case has used so much processor time that it should
    /// content itself with what it has seen. (Slow isn't wrong.)
    pub fn late(&self) -> bool {
        let now = thread_cpu(unsafe { libc::pthread_self() }).unwrap_or(0);
        now.saturating_sub(self.start) > if self.thorough { 240 } else { 12 } * 1_000_000_000
    }
    pub fn ev(&mut self, name: &'static str, n: u64) {
        *self.events.entry(name).or_insert(0) += n;
    }
    pub fn fold(&mut self, v: u64) {
        self.sig = fnv(self.sig, v);
    }
    pub fn fold_f(&mut self, v: f32) {
        self.sig = fnv(self.sig, v.to_bits() as u64);
    }
    pub fn desc(&mut self, s: String) {
        self.fold(hash_str(&s));
        self.desc = s;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Picks by tier.
    pub fn t<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

pub struct Fam {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case) -> R,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub fams: &'static [Fam],
    /// The whole input space named in the rule is enumerated.
    pub exhaustive: bool,
}

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub msg: String,
    pub file: String,
    pub line: u32,
}

impl PanicInfo {
    pub fn in_harness(&self) -> bool {
        self.file.starts_with("src/") || self.file.starts_with("harness/src/")
    }
    pub fn sig(&self) -> String {
        let f = match self.file.find("/registry/src/") {
            Some(i) => self.file[i + 14..].splitn(2, '/').nth(1).unwrap_or("?").to_string(),
            None => self.file.clone(),
        };
        format!("panic:{}:{}", f, self.line)
    }
    pub fn fail(&self) -> Fail {
        Fail {
            msg: format!("panicked at {}:{}: {}", self.file, self.line, self.msg),
            sig: Some(self.sig()),
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let (file, line) = i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| {
            // A panic while another is unwinding aborts, so the first one counts.
            *p.borrow_mut() = Some(PanicInfo { msg, file, line });
        });
    }));
}

/// Runs code under test, turning a panic into a description of it.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or(PanicInfo { msg: "?".into(), file: "?".into(), line: 0 })),
    }
}

/// Runs code under test on a thread of its own.
pub fn spawn<T: Send + 'static>(
    f: impl FnOnce() -> T + Send + 'static,
) -> std::thread::JoinHandle<Result<T, PanicInfo>> {
    std::thread::spawn(move || guard(f))
}

pub fn join<T>(h: std::thread::JoinHandle<Result<T, PanicInfo>>) -> Result<T, Fail> {
    match h.join() {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(p)) => {
            if p.in_harness() {
                panic!("{} at {}:{}", p.msg, p.file, p.line)
            }
            Err(p.fail())
        }
        Err(_) => panic!("thread died"),
    }
}

pub enum Outcome {
    Ok,
    Fail(Fail),
    Harness(String),
}

pub fn case_seed(id: &str, fam: &str, seed: u64, idx: u64) -> u64 {
    fnv(fnv(fnv(hash_str(id), hash_str(fam)), seed), idx)
}

pub fn run_case(ck: &Check, fam: &Fam, seed: u64, idx: u64, thorough: bool) -> (Case, Outcome) {
    let mut c = Case {
        rng: Rng::new(case_seed(ck.id, fam.name, seed, idx)),
        thorough,
        idx,
        events: BTreeMap::new(),
        sig: hash_str(fam.name),
        nontrivial: false,
        desc: String::new(),
        soft: Vec::new(),
        start: thread_cpu(unsafe { libc::pthread_self() }).unwrap_or(0),
    };
    let out = match guard(|| (fam.run)(&mut c)) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(f)) => Outcome::Fail(f),
        Err(p) => {
            if p.in_harness() {
                Outcome::Harness(format!("{} at {}:{}", p.msg, p.file, p.line))
            } else {
                Outcome::Fail(p.fail())
            }
        }
    };
    (c, out)
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VMON_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub text: String,
}

/// Entries of the committed list: "known: property=<id> sig=<signature> <text>".
pub fn known_findings() -> Vec<Known> {
    let mut v = Vec::new();
    let s = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut it = r.splitn(3, ' ');
            if let (Some(p), Some(g), Some(t)) = (it.next(), it.next(), it.next()) {
                if let Some(g) = g.strip_prefix("sig=") {
                    v.push(Known { prop: p.into(), sig: g.into(), text: t.into() });
                }
            }
        }
    }
    v
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

#[derive(Clone)]
pub struct Violation {
    pub fam: usize,
    pub idx: u64,
    pub msg: String,
    pub desc: String,
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    per_fam: Vec<(u64, u64)>, // run, nontrivial
    sigs: HashSet<u64>,
    events: BTreeMap<&'static str, u64>,
    samples: Vec<(usize, String)>,
    violations: Vec<Violation>,
    known: BTreeMap<String, (u64, String)>,
    harness: Vec<String>,
}

struct Slot {
    tid: AtomicU64,
    fam: AtomicUsize,
    idx: AtomicU64,
    start_ns: AtomicU64, // thread cpu time at case start + 1, 0 = idle
}

fn thread_cpu(t: libc::pthread_t) -> Option<u64> {
    unsafe {
        let mut clk: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(t, &mut clk) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64)
    }
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
}

impl Opts {
    pub fn tier(&self) -> &'static str {
        if self.thorough {
            "thorough"
        } else {
            "quick"
        }
    }
    fn budget(&self) -> Duration {
        let d = if self.thorough { 780 } else { 40 };
        let s = std::env::var("VMON_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(d);
        Duration::from_secs(s)
    }
    fn cpu_limit(&self) -> u64 {
        (if self.thorough { 700 } else { 60 }) * 1_000_000_000
    }
}

pub fn write_replay(ck: &Check, o: &Opts, v: &Violation) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let f = &ck.fams[v.fam];
    let p = dir.join(format!("{}-{}-{}-{}-{}.json", ck.id, f.name, o.seed, o.tier(), v.idx));
    let _ = std::fs::write(
        &p,
        format!(
            "{{\"property\": {}, \"family\": {}, \"index\": {}, \"seed\": {}, \"tier\": {},\n \"message\": {},\n \"case\": {}}}\n",
            js(ck.id), js(f.name), v.idx, o.seed, js(o.tier()), js(&v.msg), js(&cut(&v.desc, 4000))
        ),
    );
    p
}

fn evidence(ck: &Check, o: &Opts, t: &Totals, wall: f64, note: &str) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", js(ck.id), js(o.tier()), o.seed));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", t.evaluations, t.sigs.len()));
    s.push_str(&format!("  \"rule\": {},\n", js(ck.rule)));
    s.push_str(&format!("  \"exhaustive\": {},\n", ck.exhaustive && o.thorough && note.is_empty()));
    s.push_str("  \"observed\": {");
    s.push_str(&t.events.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    s.push_str("},\n  \"families\": {");
    s.push_str(
        &ck.fams
            .iter()
            .zip(&t.per_fam)
            .map(|(f, (n, d))| format!("{}: {{\"cases\": {}, \"nontrivial\": {}}}", js(f.name), n, d))
            .collect::<Vec<_>>()
            .join(", "),
    );
    s.push_str("},\n  \"known_findings_seen\": {");
    s.push_str(&t.known.iter().map(|(k, (n, _))| format!("{}: {}", js(k), n)).collect::<Vec<_>>().join(", "));
    s.push_str("},\n  \"samples\": [\n");
    s.push_str(
        &t.samples
            .iter()
            .map(|(f, d)| format!("   {}", js(&format!("{}: {}", ck.fams[*f].name, cut(d, 400)))))
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    s.push_str("\n  ]");
    if !note.is_empty() {
        s.push_str(&format!(",\n  \"note\": {}", js(note)));
    }
    s.push_str("\n },\n \"assumptions\": [");
    s.push_str(&ck.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "));
    s.push_str(&format!("],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, t.violations.len()));
    let _ = std::fs::write(dir.join(format!("{}.json", ck.id)), s);
}

fn slots_path() -> PathBuf {
    PathBuf::from(std::env::var("VMON_SLOTS").unwrap_or_else(|_| "/dev/null".into()))
}

/// Runs all cases of a check in this process and reports. The exit code: 0
/// held, 1 violated, 2 no answer.
pub fn worker(ck: &'static Check, o: Opts) -> i32 {
    let t0 = Instant::now();
    let nthreads = std::env::var("VMON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let only = std::env::var("VMON_FAMILY").ok();
    let mut work: Vec<(f64, usize, u64)> = Vec::new();
    for (i, f) in ck.fams.iter().enumerate() {
        if only.as_ref().map(|o| o != f.name).unwrap_or(false) {
            continue;
        }
        let n = if o.thorough { f.thorough } else { f.quick };
        for k in 0..n {
            work.push(((k as f64 + 0.5) / n as f64, i, k));
        }
    }
    // First cases of every family first, then evenly.
    work.sort_by(|a, b| (a.2 != 0, a.0, a.1).partial_cmp(&(b.2 != 0, b.0, b.1)).unwrap());
    let work = Arc::new(work);
    let known = Arc::new(known_findings());
    let totals = Arc::new(Mutex::new(Totals { per_fam: vec![(0, 0); ck.fams.len()], ..Default::default() }));
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let done = Arc::new(AtomicUsize::new(0));
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..nthreads)
            .map(|_| Slot { tid: AtomicU64::new(0), fam: AtomicUsize::new(0), idx: AtomicU64::new(0), start_ns: AtomicU64::new(0) })
            .collect(),
    );
    let o = Arc::new(o);
    let slotfile = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(slots_path()).ok().map(Arc::new);
    if let Some(f) = &slotfile {
        alloc::SLOTS.store(std::os::fd::AsRawFd::as_raw_fd(&**f), SeqCst);
    }

    let mut hs = Vec::new();
    for ti in 0..nthreads {
        let (work, known, totals, next, stop, slots, o, slotfile, done) = (
            work.clone(), known.clone(), totals.clone(), next.clone(), stop.clone(), slots.clone(), o.clone(), slotfile.clone(), done.clone(),
        );
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let slot = &slots[ti];
                    let me = unsafe { libc::pthread_self() };
                    slot.tid.store(me as u64, SeqCst);
                    loop {
                        if stop.load(SeqCst) || t0.elapsed() > o.budget() {
                            break;
                        }
                        let w = next.fetch_add(1, SeqCst);
                        if w >= work.len() {
                            break;
                        }
                        let (_, fi, idx) = work[w];
                        let fam = &ck.fams[fi];
                        slot.fam.store(fi, SeqCst);
                        slot.idx.store(idx, SeqCst);
                        slot.start_ns.store(thread_cpu(me).unwrap_or(0) + 1, SeqCst);
                        if let Some(f) = &slotfile {
                            let _ = f.write_at(format!("{:<20}{:<43}\n", fi, idx).as_bytes(), 64 * ti as u64);
                        }
                        alloc::CASE.with(|c| c.set(Some((fi, idx))));
                        let (mut c, out) = run_case(ck, fam, o.seed, idx, o.thorough);
                        alloc::CASE.with(|c| c.set(None));
                        slot.start_ns.store(0, SeqCst);
                        if let Some(f) = &slotfile {
                            let _ = f.write_at(format!("{:<63}\n", "-").as_bytes(), 64 * ti as u64);
                        }
                        let mut t = totals.lock().unwrap_or_else(|e| e.into_inner());
                        t.evaluations += 1;
                        t.per_fam[fi].0 += 1;
                        if c.nontrivial {
                            t.per_fam[fi].1 += 1;
                            let sig = c.sig;
                            t.sigs.insert(sig);
                            if t.samples.iter().filter(|s| s.0 == fi).count() < 2 && !c.desc.is_empty() {
                                let d = c.desc.clone();
                                t.samples.push((fi, d));
                            }
                        }
                        for (k, v) in &c.events {
                            *t.events.entry(k).or_insert(0) += v;
                        }
                        let mut fails: Vec<Fail> = c.soft.drain(..).collect();
                        match out {
                            Outcome::Ok => (),
                            Outcome::Fail(f) => fails.push(f),
                            Outcome::Harness(h) => {
                                t.harness.push(format!("{} case {}: {}", fam.name, idx, h));
                                stop.store(true, SeqCst);
                            }
                        }
                        for f in fails {
                            if let Some(k) = f.sig.as_ref().and_then(|g| known.iter().find(|k| k.prop == ck.id && &k.sig == g)) {
                                let e = t.known.entry(k.sig.clone()).or_insert((0, f.msg.clone()));
                                e.0 += 1;
                            } else {
                                let msg = match &f.sig {
                                    Some(g) => format!("{} [{}]", f.msg, g),
                                    None => f.msg,
                                };
                                t.violations.push(Violation { fam: fi, idx, msg, desc: c.desc.clone() });
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                    slot.tid.store(0, SeqCst);
                    done.fetch_add(1, SeqCst);
                })
                .expect("thread"),
        );
    }

    // Watch the cases in flight.
    let mut hung = None;
    while done.load(SeqCst) < nthreads && hung.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        for s in slots.iter() {
            let (t, st) = (s.tid.load(SeqCst), s.start_ns.load(SeqCst));
            if t != 0 && st != 0 {
                if let Some(now) = thread_cpu(t as libc::pthread_t) {
                    let used = now.saturating_sub(st - 1);
                    if used > o.cpu_limit() && s.start_ns.load(SeqCst) == st {
                        hung = Some(Violation {
                            fam: s.fam.load(SeqCst),
                            idx: s.idx.load(SeqCst),
                            msg: format!("still computing after {:.0} s of processor time (such a case takes well under a tenth of that)", used as f64 * 1e-9),
                            desc: String::new(),
                        });
                    }
                }
            }
        }
    }
    if hung.is_none() {
        for h in hs {
            if h.join().is_err() {
                totals.lock().unwrap_or_else(|e| e.into_inner()).harness.push("worker thread died".into());
            }
        }
    }
    let mut t = totals.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(h) = hung {
        t.violations.push(h);
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut note = String::new();
    let planned = work.len() as u64;
    if t.evaluations < planned && t.violations.is_empty() {
        note = format!("time budget reached after {} of {} planned cases", t.evaluations, planned);
    }
    t.samples.sort();
    evidence(ck, &o, &t, wall, &note);

    for k in known.iter().filter(|k| k.prop == ck.id) {
        if let Some((n, msg)) = t.known.get(&k.sig) {
            println!("KNOWN-FINDING: property={} {} (seen {} times; e.g. {})", ck.id, k.text, n, cut(&msg.replace('\n', " "), 160));
        }
    }
    println!(
        "{} {} seed={}: {} cases, {} distinct non-trivial, {:.1} s{}{}",
        ck.id, o.tier(), o.seed, t.evaluations, t.sigs.len(), wall,
        if note.is_empty() { "" } else { "; " }, note
    );
    println!("observed: {}", t.events.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" "));
    if !t.violations.is_empty() {
        t.violations.sort_by_key(|v| (v.fam, v.idx));
        for v in t.violations.iter().take(3) {
            let p = write_replay(ck, &o, v);
            println!("  {} case {}: {}", ck.fams[v.fam].name, v.idx, cut(&v.msg, 1500));
            println!("  case: {}", cut(&v.desc, 1500));
            println!("VIOLATION property={} replay={}", ck.id, p.display());
        }
        return 1;
    }
    if !t.harness.is_empty() {
        println!("ERROR in the harness: {}", t.harness.join("; "));
        return 2;
    }
    if only.is_none() {
        for (f, (n, nt)) in ck.fams.iter().zip(&t.per_fam) {
            let want = if o.thorough { f.thorough } else { f.quick };
            if want > 0 && (*n == 0 || *nt == 0) {
                println!("INCONCLUSIVE: family {} ran {} cases, {} of them non-trivial", f.name, n, nt);
                return 2;
            }
        }
    }
    0
}

/// Starts the worker in a process of its own, so that a crash of the code under
/// test is an observation, not the end of the check.
pub fn check(ck: &'static Check, o: Opts) -> i32 {
    let dir = std::env::temp_dir().join(format!("vmon-{}-{}", ck.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let slots = dir.join("slots");
    let t0 = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let code = supervise(
        std::process::Command::new(&exe)
            .arg("worker").arg(ck.id).arg(o.tier())
            .env("VMON_SLOTS", &slots)
            .env("VMON_SCRATCH", &dir),
        Duration::from_secs(if o.thorough { 3 * 3600 } else { 600 }),
    );
    let r = match code {
        End::Code(c) if c == 0 || c == 1 || c == 2 => c,
        End::Timeout => {
            println!("INCONCLUSIVE: no answer in time");
            2
        }
        End::Signal(9) => {
            println!("INCONCLUSIVE: killed");
            2
        }
        end => {
            // Crashed: see which of the cases in flight does it.
            println!("the worker ended with {:?}; running the cases in flight one by one", end);
            let s = std::fs::read_to_string(&slots).unwrap_or_default();
            let mut found = None;
            // A case that asked for too much memory has noted itself at the end.
            for l in s.lines().rev() {
                let mut it = l.trim_matches('\0').split_whitespace();
                if let (Some(Ok(f)), Some(Ok(i))) = (it.next().map(|s| s.parse::<usize>()), it.next().map(|s| s.parse::<u64>())) {
                    let e = supervise(
                        std::process::Command::new(&exe)
                            .arg("case").arg(ck.id).arg(ck.fams[f].name).arg(i.to_string()).arg(o.tier())
                            .env("VMON_SCRATCH", &dir),
                        Duration::from_secs(300),
                    );
                    println!("family {} case {} alone: {:?}", ck.fams[f].name, i, e);
                    match e {
                        End::Signal(s) if s != 9 && s != 15 => found = Some((f, i, format!("the process died of signal {} while running this case (stack overflow, abort or memory error)", s))),
                        End::Code(c) if c == alloc::EXIT_MEMORY => found = Some((f, i, "the case asked for gigabytes of memory".to_string())),
                        _ => (),
                    }
                }
                if found.is_some() {
                    break;
                }
            }
            match found {
                Some((fam, idx, msg)) => {
                    let v = Violation { fam, idx, msg, desc: String::new() };
                    let mut t = Totals { per_fam: vec![(0, 0); ck.fams.len()], evaluations: 1, ..Default::default() };
                    t.violations.push(v.clone());
                    evidence(ck, &o, &t, t0.elapsed().as_secs_f64(), "the code under test crashed the process");
                    let p = write_replay(ck, &o, &v);
                    println!("  {} case {}: {}", ck.fams[fam].name, idx, v.msg);
                    println!("VIOLATION property={} replay={}", ck.id, p.display());
                    1
                }
                None => {
                    println!("INCONCLUSIVE: no single case reproduces the crash");
                    2
                }
            }
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    r
}

#[derive(Debug)]
pub enum End {
    Code(i32),
    Signal(i32),
    Timeout,
}

pub fn supervise(cmd: &mut std::process::Command, limit: Duration) -> End {
    use std::os::unix::process::ExitStatusExt;
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => {
            println!("cannot start {:?}: {}", cmd, e);
            return End::Timeout;
        }
    };
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                return match (st.code(), st.signal()) {
                    (Some(c), _) => End::Code(c),
                    (_, Some(s)) => End::Signal(s),
                    _ => End::Timeout,
                }
            }
            Ok(None) => (),
            Err(_) => return End::Timeout,
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return End::Timeout;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

/// Scratch directory of this process, removed by the parent.
pub fn scratch() -> PathBuf {
    let p = match std::env::var("VMON_SCRATCH") {
        Ok(s) => PathBuf::from(s),
        Err(_) => std::env::temp_dir().join(format!("vmon-replay-{}", std::process::id())),
    };
    let _ = std::fs::create_dir_all(&p);
    p
}

pub fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let i = s.find(&format!("\"{}\":", k))? + k.len() + 3;
    let r = s[i..].trim_start();
    if let Some(r) = r.strip_prefix('"') {
        r.split('"').next()
    } else {
        Some(r.split(|c: char| !c.is_ascii_digit()).next().unwrap_or(""))
    }
}

/// Runs one case alone and tells what happened.
pub fn single(ck: &'static Check, fam: &str, idx: u64, o: Opts) -> i32 {
    let fam = match ck.fams.iter().find(|f| f.name == fam) {
        Some(f) => f,
        None => {
            println!("no family {}", fam);
            return 2;
        }
    };
    // The same stack as in the worker.
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || run_case(ck, fam, o.seed, idx, o.thorough))
        .expect("thread");
    let (c, out) = h.join().expect("case thread");
    println!("case: {}", c.desc);
    println!("observed: {:?}", c.events);
    let known = known_findings();
    let mut rc = 0;
    let mut fails = c.soft;
    match out {
        Outcome::Ok => (),
        Outcome::Fail(f) => fails.push(f),
        Outcome::Harness(h) => {
            println!("ERROR in the harness: {}", h);
            return 2;
        }
    }
    for f in fails {
        let k = f.sig.as_ref().map(|g| known.iter().any(|k| k.prop == ck.id && &k.sig == g)).unwrap_or(false);
        println!("{}: {} {:?}", if k { "known finding" } else { "VIOLATED" }, f.msg, f.sig);
        if !k {
            rc = 1;
        }
    }
    rc
}

pub fn repo() -> &'static Path {
    Path::new("/repo")
}
