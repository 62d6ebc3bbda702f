//! C31: the binary-to-source tool, run as a process in scratch directories.

use crate::ensure;
use crate::rng::*;
use crate::rt::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::*};

fn tool() -> PathBuf {
    verif_dir().join("harness/target/bin2str/out/debug/bin2str")
}

/// A directory of its own, gone afterwards.
struct Dir(PathBuf);

impl Dir {
    fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = scratch().join(format!("tool{}", N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Dir(d)
    }
    fn path(&self, f: &str) -> PathBuf {
        self.0.join(f)
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Runs the tool; its exit code, or None if it died of a signal.
fn run(d: &Path) -> (Option<i32>, String) {
    let o = Command::new(tool())
        .current_dir(d)
        .stdin(Stdio::null())
        .output()
        .expect("the tool cannot be started");
    (o.status.code(), String::from_utf8_lossy(&o.stderr).chars().take(300).collect())
}

/// Recognises the plainest way to write such a table: one static byte slice.
/// Others are left to the compiler.
fn parse(s: &str) -> Option<(String, Vec<u8>)> {
    if !s.is_ascii() || s.contains('/') {
        return None;
    }
    let mut toks: Vec<&str> = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b' ' | b'\n' | b'\t' | b'\r' => i += 1,
            c if c.is_ascii_alphanumeric() || c == b'_' => {
                let j = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                toks.push(&s[j..i]);
            }
            _ => {
                toks.push(&s[i..i + 1]);
                i += 1;
            }
        }
    }
    if toks.len() < 13 || toks[0] != "pub" || toks[1] != "static" {
        return None;
    }
    let name = toks[2];
    if !name.bytes().all(|c| c.is_ascii_alphabetic()) || ["static", "pub", "as", "if", "in", "fn"].contains(&name) {
        return None;
    }
    if toks[3..11] != [":", "&", "[", "u8", "]", "=", "&", "["] || toks[toks.len() - 2..] != ["]", ";"] {
        return None;
    }
    let mut v = Vec::new();
    let body = &toks[11..toks.len() - 2];
    for (i, t) in body.iter().enumerate() {
        if i % 2 == 1 {
            if *t != "," {
                return None;
            }
        } else {
            if !t.bytes().all(|c| c.is_ascii_digit()) {
                return None;
            }
            v.push(t.parse::<u8>().ok()?);
        }
    }
    Some((name.to_string(), v))
}

fn cut(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

/// Name of the static in a source the parser doesn't recognise.
fn static_name(s: &str) -> String {
    let mut it = s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).filter(|w| !w.is_empty());
    while let Some(w) = it.next() {
        if w == "static" || w == "const" {
            return it.next().unwrap_or("wav").to_string();
        }
    }
    "wav".to_string()
}

fn rustc(d: &Path, src: &str) -> Result<(), String> {
    std::fs::write(d.join("main.rs"), src).expect("scratch file");
    let o = Command::new("rustc")
        .current_dir(d)
        .args(["--edition", "2018", "--crate-type", "lib", "--crate-name", "table", "--cap-lints", "allow", "--emit=metadata", "main.rs"])
        .stdin(Stdio::null())
        .output()
        .expect("rustc cannot be started");
    if o.status.success() {
        Ok(())
    } else if o.status.code() == Some(1) {
        Err(String::from_utf8_lossy(&o.stderr).into_owned())
    } else {
        panic!("rustc ended with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr))
    }
}

/// Has the compiler decide about several converted directories at once.
fn compiled(dirs: &[&Dir]) -> R {
    let d = Dir::new();
    let mut ok = String::new();
    let mut src = String::new();
    for (k, x) in dirs.iter().enumerate() {
        let text = String::from_utf8_lossy(&std::fs::read(x.path("output.rs")).unwrap_or_default()).into_owned();
        let p = x.0.display();
        src.push_str(&format!(
            "mod m{} {{\n include!(\"{}/output.rs\");\n #[allow(long_running_const_eval)]\n const _: () = {{\n  let a: &[u8] = {};\n  let b: &[u8] = include_bytes!(\"{}/input.wav\");\n  assert!(a.len() == b.len());\n  let mut i = 0;\n  while i < b.len() {{ assert!(a[i] == b[i]); i += 1; }}\n }};\n}}\n",
            k, p, static_name(&text), p
        ));
        ok.push_str(&format!(
            "mod m{} {{\n const _: () = {{\n  let b: &[u8] = include_bytes!(\"{}/input.wav\");\n  assert!(b.len() == {});\n }};\n}}\n",
            k, p, std::fs::metadata(x.path("input.wav")).expect("input").len()
        ));
    }
    if let Err(e) = rustc(&d.0, &src) {
        // That the compiler itself works.
        if let Err(e) = rustc(&d.0, &ok) {
            panic!("rustc doesn't work: {}", e);
        }
        return Err(Fail::new(format!("the emitted source doesn't compile to the bytes of the input: {}", cut(&e, 1200))));
    }
    Ok(())
}

/// Converts bytes and judges the source; the directory for further use.
fn convert(c: &mut Case, input: &[u8], stale: bool) -> Result<Dir, Fail> {
    let d = Dir::new();
    std::fs::write(d.path("input.wav"), input).expect("scratch file");
    if stale {
        // What an earlier, longer conversion has left.
        std::fs::write(d.path("output.rs"), vec![b'x'; input.len() * 6 + 200]).expect("scratch file");
    }
    let (code, err) = run(&d.0);
    let what = || format!("{} bytes {:?}{}", input.len(), &input[..input.len().min(24)], if input.len() > 24 { ".." } else { "" });
    ensure!(code == Some(0), "converting {}: the tool ends with {:?}: {}", what(), code, err);
    let out = match std::fs::read(d.path("output.rs")) {
        Ok(o) => o,
        Err(e) => return Err(Fail::new(format!("converting {}: no output.rs: {}", what(), e))),
    };
    let kept = std::fs::read(d.path("input.wav")).unwrap_or_default();
    ensure!(kept == input, "converting {}: the input has been changed", what());
    c.ev("conversions", 1);
    c.ev("bytes", input.len() as u64);
    let text = match String::from_utf8(out) {
        Ok(t) => t,
        Err(_) => return Err(Fail::new(format!("converting {}: output.rs is not UTF-8", what()))),
    };
    c.ev("lines", text.lines().count() as u64);
    match parse(&text) {
        Some((_, v)) => {
            if v != input {
                let k = v.iter().zip(input).position(|(a, b)| a != b).unwrap_or(v.len().min(input.len()));
                return Err(Fail::new(format!(
                    "converting {}: the table has {} bytes and differs at {} ({:?} for {:?})", what(), v.len(), k, v.get(k), input.get(k)
                )));
            }
            c.ev("tables_parsed", 1);
        }
        None => {
            c.ev("left_to_compiler", 1);
            compiled(&[&d])?;
        }
    }
    Ok(d)
}

fn pattern(r: &mut Rng, style: usize, n: usize) -> Vec<u8> {
    let k = r.u32() as u8;
    let p = r.range(1, 40);
    (0..n)
        .map(|i| match style {
            0 => (i % 256) as u8,
            1 => r.below(10) as u8,
            2 => r.range(10, 99) as u8,
            3 => r.range(100, 255) as u8,
            4 => k,
            5 => *r.pick(&[0, 9, 10, 99, 100, 255]),
            6 => if i % p == 0 { 5 } else { 200 },
            _ => r.u32() as u8,
        })
        .collect()
}

fn lengths(c: &mut Case) -> R {
    // 10 lengths per case, every style.
    let style = c.idx as usize % 8;
    let from = c.idx as usize / 8 * 10;
    c.desc(format!("lengths {} to {}, style {}", from, from + 9, style));
    for n in from..from + 10 {
        let b = pattern(&mut c.rng, style, n);
        let stale = c.rng.chance(0.2);
        convert(c, &b, stale)?;
        c.fold(hash_str(&format!("{:?}", b)));
    }
    c.nontrivial();
    Ok(())
}

fn random(c: &mut Case) -> R {
    for _ in 0..6 {
        let n = c.rng.log_range(0, 6000);
        let mut b = Vec::new();
        while b.len() < n {
            let s = c.rng.below(8);
            let m = c.rng.log_range(1, n - b.len()).min(n - b.len());
            b.extend(pattern(&mut c.rng, s, m));
        }
        let stale = c.rng.chance(0.3);
        convert(c, &b, stale)?;
        c.fold(hash_str(&format!("{:?}", &b[..b.len().min(200)])));
    }
    c.desc("random contents of up to 6000 bytes".into());
    c.nontrivial();
    Ok(())
}

fn big(c: &mut Case) -> R {
    let n = match c.idx {
        0 => 1_048_577 + c.rng.below(1_500_000),
        1 => 1_048_576,
        _ => c.rng.log_range(100_000, c.t(600_000, 8_000_000)),
    };
    let s = c.rng.below(8);
    let b = pattern(&mut c.rng, s, n);
    c.desc(format!("{} bytes, style {}", n, s));
    c.fold(n as u64);
    convert(c, &b, false)?;
    c.nontrivial();
    Ok(())
}

fn compile(c: &mut Case) -> R {
    let mut dirs = Vec::new();
    for k in 0..20 {
        let n = match k {
            0 => 0,
            1 => 1,
            _ => c.rng.log_range(1, 1500),
        };
        let s = c.rng.below(8);
        let b = pattern(&mut c.rng, s, n);
        c.fold(hash_str(&format!("{:?}", b)));
        dirs.push(convert(c, &b, false)?);
    }
    compiled(&dirs.iter().collect::<Vec<_>>())?;
    c.ev("compiled", dirs.len() as u64);
    c.desc("20 conversions compiled and compared by rustc".into());
    c.nontrivial();
    Ok(())
}

fn failures(c: &mut Case) -> R {
    let d = Dir::new();
    let kind = c.idx % 3;
    if kind > 0 {
        let n = c.rng.log_range(0, 100_000);
        let b = pattern(&mut c.rng, 7, n);
        std::fs::write(d.path("input.wav"), b).expect("scratch file");
    }
    let what = ["no input", "a full disk", "a directory in place of the output"][kind as usize];
    match kind {
        1 => std::os::unix::fs::symlink("/dev/full", d.path("output.rs")).expect("link"),
        2 => std::fs::create_dir(d.path("output.rs")).expect("directory"),
        _ => (),
    }
    c.desc(what.into());
    let (code, _) = run(&d.0);
    ensure!(code.map(|c| c != 0).unwrap_or(false), "{}: the tool ends with {:?}", what, code);
    if kind == 0 {
        ensure!(!d.path("output.rs").exists(), "{}: output.rs has been written", what);
    }
    c.ev("failures_reported", 1);
    c.fold(c.idx);
    c.nontrivial();
    Ok(())
}

pub const C31: Check = Check {
    id: "C31",
    rule: "the tool is built from /repo and run as a process in scratch directories: every length from 0 to 299 (thorough 1999) with eight patterns of byte values (one, two and three digits, counting, constant, borders of digit counts, mixed), random contents of up to 6000 bytes, files of up to 600000 bytes (two of 1 to 2.5 million; thorough 8 million), with and without a longer stale output; each output is parsed strictly (what the parser doesn't recognise is left to rustc) and batches are compiled and compared at compile time by rustc; missing inputs and unwritable outputs must be reported. Non-trivial: always; distinct by contents.",
    assumptions: &["rustc of this sandbox decides what compiles"],
    exhaustive: false,
    fams: &[
        Fam { name: "lengths", quick: 560, thorough: 10000, run: lengths },
        Fam { name: "random", quick: 470, thorough: 37000, run: random },
        Fam { name: "big", quick: 18, thorough: 370, run: big },
        Fam { name: "compile", quick: 8, thorough: 150, run: compile },
        Fam { name: "failures", quick: 56, thorough: 370, run: failures },
    ],
};
