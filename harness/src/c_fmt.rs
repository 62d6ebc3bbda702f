//! C05 integer conversions, C06 sample-format arithmetic, C07 panning.

use crate::ensure;
use crate::rt::*;
use crate::util::*;
use bae_rs::*;
use std::convert::TryFrom;

// ---------------------------------------------------------------- C05

const BLOCKS24: u64 = 64;

fn from_u8_i16(c: &mut Case) -> R {
    for v in 0..=255u8 {
        let s = sample_from_u8(v);
        ensure!(close(s as f64, (v as f64 - 128.0) / 128.0, 1e-7), "u8 {} reads as {}", v, s);
        ensure!(sample_to_u8(s) == v, "u8 {} -> {} -> {}", v, s, sample_to_u8(s));
        ensure!(same(sample_from_u8_bytes([v]), s), "byte form of u8 {}", v);
        ensure!(sample_to_u8_bytes(s) == [v], "byte form to u8 {}", v);
        c.fold_f(s);
    }
    for v in i16::MIN..=i16::MAX {
        let s = sample_from_i16(v);
        ensure!(close(s as f64, v as f64 / 32767.0, 2e-7), "i16 {} reads as {}", v, s);
        ensure!(sample_to_i16(s) == v, "i16 {} -> {} -> {}", v, s, sample_to_i16(s));
        ensure!(same(sample_from_i16_bytes(v.to_le_bytes()), s), "byte form of i16 {}", v);
        ensure!(sample_to_i16_bytes(s) == v.to_le_bytes(), "byte form to i16 {}", v);
        c.fold_f(s);
    }
    c.ev("u8_values", 256);
    c.ev("i16_values", 65536);
    c.desc("all u8 and all i16 values there and back, integer and byte forms".into());
    c.nontrivial();
    Ok(())
}

fn from_i24(c: &mut Case) -> R {
    let n = (1i64 << 24) / BLOCKS24 as i64;
    let lo = -(1i64 << 23) + n * c.idx as i64;
    let mut prev = f32::NEG_INFINITY;
    for v in lo..lo + n {
        let v = v as i32;
        let s = sample_from_i24(v);
        ensure!(close(s as f64, v as f64 / 8388607.0, 2e-7), "i24 {} reads as {}", v, s);
        ensure!(s >= prev, "i24 {} reads as {} less than its predecessor {}", v, s, prev);
        prev = s;
        ensure!(sample_to_i24(s) == v, "i24 {} -> {} -> {}", v, s, sample_to_i24(s));
        let b = v.to_le_bytes();
        let b = [b[0], b[1], b[2]];
        ensure!(same(sample_from_i24_bytes(b), s), "byte form of i24 {}: {} for {}", v, sample_from_i24_bytes(b), s);
        ensure!(sample_to_i24_bytes(s) == b, "byte form to i24 {}", v);
        let top = (c.rng.u32() & 0xff) as i32;
        let w = (v & 0x00ff_ffff) | (top << 24);
        ensure!(same(sample_from_i24(w), s), "i24 {} with upper byte {:#x} reads as {} for {}", v, top, sample_from_i24(w), s);
        c.fold_f(s);
    }
    c.ev("i24_values", n as u64);
    c.desc(format!("i24 values {}..{} there and back, integer and byte forms, with arbitrary upper bytes", lo, lo + n));
    c.nontrivial();
    Ok(())
}

/// Checks one float against all three depths, given the results for its
/// predecessor.
fn one_float(s: f32, prev: &mut Option<(u8, i16, i32)>) -> R {
    let x = s as f64;
    let (a, b, d) = (sample_to_u8(s), sample_to_i16(s), sample_to_i24(s));
    let ea = (x * 128.0 + 128.0).max(0.0).min(255.0);
    let eb = (x * 32767.0).max(-32768.0).min(32767.0);
    let ed = (x * 8388607.0).max(-8388608.0).min(8388607.0);
    ensure!((a as f64 - ea).abs() <= 0.5 + 1e-4, "{} ({:e}) to u8 is {}, scaled value {}", s, s, a, ea);
    ensure!((b as f64 - eb).abs() <= 0.5 + 2e-3, "{} ({:e}) to i16 is {}, scaled value {}", s, s, b, eb);
    ensure!((d as f64 - ed).abs() <= 0.5 + 0.26, "{} ({:e}) to i24 is {}, scaled value {}", s, s, d, ed);
    if let Some((pa, pb, pd)) = prev {
        ensure!(a >= *pa && b >= *pb && d >= *pd, "conversion decreases at {:e}: {:?} after {:?}", s, (a, b, d), prev);
    }
    *prev = Some((a, b, d));
    let (p, q, r) = (sample_to_u8_bytes(s), sample_to_i16_bytes(s), sample_to_i24_bytes(s));
    ensure!(p == [a] && q == b.to_le_bytes() && r[..] == d.to_le_bytes()[..3], "{} ({:e}) to bytes is {:?}, {:?} and {:?} for {}, {} and {}", s, s, p, q, r, a, b, d);
    Ok(())
}

/// Ordered index of the floats: monotone map of i64 to finite f32.
fn nth_float(i: i64) -> f32 {
    if i >= 0 {
        f32::from_bits(i as u32)
    } else {
        -f32::from_bits((-i) as u32)
    }
}

const MAXF: i64 = 0x7f80_0000; // infinity

const FLOAT_PARTS: u64 = 256;

fn floats(c: &mut Case) -> R {
    let mut prev = None;
    let cases = FLOAT_PARTS as i64;
    // All floats, infinities included.
    let total = 2 * MAXF + 1;
    let lo = -MAXF + total * c.idx as i64 / cases;
    let hi = -MAXF + total * (c.idx as i64 + 1) / cases;
    for i in (lo - 1).max(-MAXF)..hi {
        one_float(nth_float(i), &mut prev)?;
    }
    c.ev("floats_converted", (hi - lo) as u64);
    c.fold(lo as u64);
    c.desc(format!("all floats from {:e} to {:e} to all depths", nth_float(lo), nth_float(hi - 1)));
    c.nontrivial();
    Ok(())
}

/// Around every rounding boundary of 8 and 16 bits and many of 24, and the
/// limits.
fn boundaries(c: &mut Case) -> R {
    let mut xs: Vec<f64> = Vec::new();
    for k in -3..=258 {
        xs.push((k as f64 + 0.5 - 128.0) / 128.0);
        xs.push((k as f64 - 128.0) / 128.0);
    }
    for _ in 0..3000 {
        xs.push((c.rng.range(0, 65540) as f64 - 32770.0 + 0.5) / 32767.0);
        xs.push((c.rng.range(0, 1 << 24) as f64 - 8388608.0 + 0.5) / 8388607.0);
    }
    for k in -3..=3 {
        for l in [-32768.0, 32767.0] {
            xs.push((l + k as f64 * 0.5) / 32767.0);
        }
        for l in [-8388608.0, 8388607.0] {
            xs.push((l + k as f64 * 0.5) / 8388607.0);
        }
    }
    xs.extend_from_slice(&[0.0, 1.0, -1.0, 1.5, -1.5, 2.0, -2.0, 255.0 / 128.0, 3.0, -3.0, 100.0, -100.0, 256.0, -256.0, 65536.0, -65536.0, 1e9, -1e9, 1e30, -1e30]);
    let mut fs: Vec<f32> = Vec::new();
    for x in xs {
        let f = x as f32;
        for d in -3..=3i32 {
            fs.push(f32::from_bits((f.to_bits() as i32).wrapping_add(d) as u32));
        }
    }
    fs.retain(|f| f.is_finite());
    fs.push(f32::INFINITY);
    fs.push(f32::NEG_INFINITY);
    fs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut prev = None;
    for f in &fs {
        one_float(*f, &mut prev)?;
        ensure!(sample_to_u8_bytes(*f) == [sample_to_u8(*f)], "u8 byte form of {}", f);
        ensure!(sample_to_i16_bytes(*f) == sample_to_i16(*f).to_le_bytes(), "i16 byte form of {}", f);
        ensure!(sample_to_i24_bytes(*f)[..] == sample_to_i24(*f).to_le_bytes()[..3], "i24 byte form of {}", f);
        c.fold_f(*f);
    }
    ensure!(sample_to_u8(0.0) == 128 && sample_to_i16(0.0) == 0 && sample_to_i24(0.0) == 0, "silence is not the midpoint");
    ensure!(sample_to_u8(-0.0) == 128 && sample_to_i16(-0.0) == 0 && sample_to_i24(-0.0) == 0, "silence is not the midpoint");
    for big in [1.1f32, 2.0, 1e10, f32::MAX, f32::INFINITY] {
        ensure!(sample_to_u8(big) == 255 && sample_to_i16(big) == 32767 && sample_to_i24(big) == 8388607, "{} does not saturate", big);
        ensure!(sample_to_u8(-big) == 0 && sample_to_i16(-big) == -32768 && sample_to_i24(-big) == -8388608, "{} does not saturate", -big);
    }
    c.ev("floats_converted", fs.len() as u64);
    c.desc(format!("{} floats around rounding and saturation boundaries", fs.len()));
    c.nontrivial();
    Ok(())
}

pub const C05: Check = Check {
    id: "C05",
    rule: "all 2^8, 2^16 and 2^24 integers there and back (with arbitrary upper bytes), in integer and byte form; all floats but NaN in ascending order, in integer and byte form, and neighbourhoods of rounding boundaries and limits. Every case is non-trivial; cases are distinct by the values they cover.",
    assumptions: &["NaN inputs are outside the property"],
    exhaustive: true,
    fams: &[
        Fam { name: "u8_i16", quick: 1, thorough: 1, run: from_u8_i16 },
        Fam { name: "i24", quick: BLOCKS24, thorough: BLOCKS24, run: from_i24 },
        Fam { name: "floats", quick: FLOAT_PARTS, thorough: FLOAT_PARTS, run: floats },
        Fam { name: "boundaries", quick: 1920, thorough: 4900, run: boundaries },
    ],
};

// ---------------------------------------------------------------- C06

trait Ch: SampleFormat + Copy {
    const NAME: &'static str;
    const N: usize;
    fn make(v: &[f32]) -> Self;
    fn get(&self) -> Vec<f32>;
}
impl Ch for Mono {
    const NAME: &'static str = "Mono";
    const N: usize = 1;
    fn make(v: &[f32]) -> Self {
        Mono { mono: v[0] }
    }
    fn get(&self) -> Vec<f32> {
        vec![self.mono]
    }
}
impl Ch for Stereo {
    const NAME: &'static str = "Stereo";
    const N: usize = 2;
    fn make(v: &[f32]) -> Self {
        Stereo { left: v[0], right: v[1] }
    }
    fn get(&self) -> Vec<f32> {
        vec![self.left, self.right]
    }
}

fn eqv<S: Ch>(what: &str, got: S, want: &[f32]) -> R {
    let g = got.get();
    for i in 0..S::N {
        ensure!(same(g[i], want[i]), "{} {}: channel {} is {:e} for {:e}", S::NAME, what, i, g[i], want[i]);
    }
    Ok(())
}

/// Within rounding of the exact result.
fn nearv<S: Ch>(what: &str, got: S, want: &[f64]) -> R {
    let g = got.get();
    for i in 0..S::N {
        let w = want[i];
        let ok = if w.is_nan() {
            g[i].is_nan()
        } else if w.abs() > 3.4028e38 {
            g[i].is_infinite() || rel(g[i] as f64, w, 1e-3) || g[i].abs() == f32::MAX
        } else {
            (g[i] as f64 - w).abs() <= 3e-7 * w.abs() + 3e-45
        };
        ensure!(ok, "{} {}: channel {} is {:e} for {:e}", S::NAME, what, i, g[i], w);
    }
    Ok(())
}

fn arith<S: Ch>(c: &mut Case) -> R {
    let n = c.t(4000, 40000);
    for k in 0..n {
        let a: Vec<f32> = (0..S::N).map(|_| wild_f32(&mut c.rng)).collect();
        let b: Vec<f32> = (0..S::N).map(|_| wild_f32(&mut c.rng)).collect();
        let s = wild_f32(&mut c.rng);
        let m = wild_f64(&mut c.rng);
        let (x, y) = (S::make(&a), S::make(&b));
        let z = |f: &dyn Fn(f32, f32) -> f32| (0..S::N).map(|i| f(a[i], b[i])).collect::<Vec<_>>();
        eqv("negation", -x, &z(&|p, _| -p))?;
        eqv("addition", x + y, &z(&|p, q| p + q))?;
        eqv("subtraction", x - y, &z(&|p, q| p - q))?;
        eqv("multiplication", x * y, &z(&|p, q| p * q))?;
        let ms: Vec<f64> = a.iter().map(|p| *p as f64 * s as f64).collect();
        nearv("scaling by SampleT", x * s, &ms)?;
        let mm: Vec<f64> = a.iter().map(|p| *p as f64 * m).collect();
        nearv("scaling by MathT", x * m, &mm)?;
        let mut t = x;
        t += y;
        eqv("+= against +", t, &(x + y).get())?;
        t = x;
        t -= y;
        eqv("-= against -", t, &(x - y).get())?;
        t = x;
        t *= y;
        eqv("*= against *", t, &(x * y).get())?;
        t = x;
        t *= s;
        eqv("*= SampleT against * SampleT", t, &(x * s).get())?;
        t = x;
        t *= m;
        eqv("*= MathT against * MathT", t, &(x * m).get())?;
        for v in t.get() {
            c.fold_f(v);
        }
        // The operands are not touched.
        eqv("operand", x, &a)?;
        if k == 0 {
            c.desc(format!("{}: a={:?} b={:?} SampleT={:e} MathT={:e}, and {} more", S::NAME, a, b, s, m, n - 1));
        }
    }
    c.ev("operations", 11 * n as u64);
    c.nontrivial();
    Ok(())
}

fn mono_there_and_back<S: Ch>(c: &mut Case) -> R {
    for _ in 0..2000 {
        let s = wild_f32(&mut c.rng);
        let tol = 3e-7 * s.abs() as f64 + 3e-45;
        let big = s.abs() > 1e38; // sums of channels may overflow
        if !big {
            let f = S::from_sample(s);
            ensure!(close(f.into_sample() as f64, s as f64, tol), "{} from_sample/into_sample of {:e} is {:e}", S::NAME, s, f.into_sample());
            let f: S = <S as From<SampleT>>::from(s);
            let back: SampleT = f.into();
            ensure!(close(back as f64, s as f64, tol), "{} From/Into of {:e} is {:e}", S::NAME, s, back);
            let (p, q) = (S::from_sample(s).get(), <S as From<SampleT>>::from(s).get());
            for i in 0..S::N {
                ensure!(close(p[i] as f64, q[i] as f64, tol), "{}: from_sample and From differ for {:e}", S::NAME, s);
            }
            let f: S = S::make(&(0..S::N).map(|_| wild_f32(&mut c.rng).max(-1e37).min(1e37)).collect::<Vec<_>>());
            let (p, q): (f32, f32) = (f.into_sample(), f.into());
            ensure!(same(p, q) || rel(p as f64, q as f64, 1e-6), "{}: into_sample {:e} and Into {:e} differ", S::NAME, p, q);
            // Folding down: every channel counts the same, -3 dB each for two.
            let v = f.get();
            let w = if S::N == 1 { 1.0 } else { 0.5f64.sqrt() };
            let sum: f64 = v.iter().map(|x| *x as f64).sum::<f64>() * w;
            let mag: f64 = v.iter().map(|x| x.abs() as f64).sum();
            ensure!(close(p as f64, sum, 3e-7 * mag + 3e-45), "{}: {:?} as a monophonic sample is {:e}, not {:e}", S::NAME, v, p, sum);
        }
        c.fold_f(s);
    }
    ensure!(S::default().get().iter().all(|v| *v == 0.0), "{} default is not silence", S::NAME);
    ensure!(S::num_samples() == S::N, "{} has {} samples", S::NAME, S::num_samples());
    c.ev("round_trips", 4000);
    c.desc(format!("{}: mono values there and back", S::NAME));
    c.nontrivial();
    Ok(())
}

fn lists<S: Ch>(c: &mut Case) -> R {
    for k in 0..1500 {
        let n = if k < 10 { k } else { c.rng.log_range(0, 40) };
        let u: Vec<u8> = (0..n).map(|_| c.rng.u32() as u8).collect();
        let w: Vec<i16> = (0..n).map(|_| c.rng.u32() as i16).collect();
        let d: Vec<i32> = (0..n).map(|_| ((c.rng.u32() << 8) as i32) >> 8).collect();
        let ru = <S as TryFrom<Vec<u8>>>::try_from(u.clone());
        let rw = <S as TryFrom<Vec<i16>>>::try_from(w.clone());
        let rd = <S as TryFrom<Vec<i32>>>::try_from(d.clone());
        let ok = n >= S::N;
        ensure!(ru.is_ok() == ok && rw.is_ok() == ok && rd.is_ok() == ok, "{} from lists of {} values: {:?}", S::NAME, n, (ru.is_ok(), rw.is_ok(), rd.is_ok()));
        if ok {
            if let (Ok(x), Ok(y), Ok(z)) = (ru, rw, rd) {
                let (x, y, z) = (x.get(), y.get(), z.get());
                for i in 0..S::N {
                    ensure!(same(x[i], sample_from_u8(u[i])), "{} channel {} from u8 list {:?}: {}", S::NAME, i, u, x[i]);
                    ensure!(same(y[i], sample_from_i16(w[i])), "{} channel {} from i16 list {:?}: {}", S::NAME, i, w, y[i]);
                    ensure!(same(z[i], sample_from_i24(d[i])), "{} channel {} from i24 list {:?}: {}", S::NAME, i, d, z[i]);
                    c.fold_f(x[i]);
                    c.fold_f(z[i]);
                }
            }
        }
        let v: Vec<f32> = (0..S::N).map(|_| if c.rng.chance(0.2) { wild_f32(&mut c.rng) } else { c.rng.uni(-1.2, 1.2) as f32 }).collect();
        let f = S::make(&v);
        let (a, b, e): (Vec<u8>, Vec<i16>, Vec<i32>) = (f.into(), f.into(), f.into());
        ensure!(a == v.iter().map(|s| sample_to_u8(*s)).collect::<Vec<_>>(), "{} {:?} into u8 list {:?}", S::NAME, v, a);
        ensure!(b == v.iter().map(|s| sample_to_i16(*s)).collect::<Vec<_>>(), "{} {:?} into i16 list {:?}", S::NAME, v, b);
        ensure!(e == v.iter().map(|s| sample_to_i24(*s)).collect::<Vec<_>>(), "{} {:?} into i24 list {:?}", S::NAME, v, e);
    }
    c.ev("list_conversions", 9000);
    c.desc(format!("{}: integer lists of 0 to 40 values in, one value per channel out", S::NAME));
    c.nontrivial();
    Ok(())
}

fn fmt_constructors(c: &mut Case) -> R {
    for _ in 0..2000 {
        let (a, b) = (wild_f32(&mut c.rng), wild_f32(&mut c.rng));
        let m = Mono::from(a);
        ensure!(same(m.mono, a), "Mono::from({:e})", a);
        let s = Stereo::from(a, b);
        ensure!(same(s.left, a) && same(s.right, b), "Stereo::from({:e},{:e}) is {:e},{:e}", a, b, s.left, s.right);
        let s2 = s.clone();
        ensure!(same(s2.left, a) && same(s2.right, b), "Stereo clone");
        c.fold_f(a);
    }
    ensure!(Mono::new().mono == 0.0 && Stereo::new().left == 0.0 && Stereo::new().right == 0.0, "new is not silent");
    c.ev("operations", 6000);
    c.desc("constructors".into());
    c.nontrivial();
    Ok(())
}

pub const C06: Check = Check {
    id: "C06",
    rule: "random operands of every kind (ordinary, denormal, extreme, powers, exact) for mono and stereo: each operator is compared per channel with IEEE arithmetic (scaling: with the exact product, to within rounding), each compound form with its binary form; mono values there and back; integer lists of 0-40 entries. Every case is non-trivial; distinct by the values seen.",
    assumptions: &["the integer conversions themselves are C05's"],
    exhaustive: false,
    fams: &[
        Fam { name: "mono_arith", quick: 6400, thorough: 16000, run: arith::<Mono> },
        Fam { name: "stereo_arith", quick: 6400, thorough: 16000, run: arith::<Stereo> },
        Fam { name: "mono_back", quick: 3200, thorough: 10000, run: mono_there_and_back::<Mono> },
        Fam { name: "stereo_back", quick: 3200, thorough: 10000, run: mono_there_and_back::<Stereo> },
        Fam { name: "mono_lists", quick: 3200, thorough: 10000, run: lists::<Mono> },
        Fam { name: "stereo_lists", quick: 3200, thorough: 10000, run: lists::<Stereo> },
        Fam { name: "constructors", quick: 1280, thorough: 2600, run: fmt_constructors },
    ],
};

// ---------------------------------------------------------------- C07

/// Levels of the two sides at a position, in dB.
fn law(g: f64) -> (f64, f64) {
    let g = g.max(-1.0).min(1.0);
    if g <= 0.0 {
        (-3.0 * (g + 1.0), -120.0 + 117.0 * (g + 1.0))
    } else {
        (-3.0 - 117.0 * g, -3.0 + 3.0 * g)
    }
}

fn pan64(s: f32, g: f64) -> (f64, f64) {
    let p: Stereo = Panner::<f64>::to_sample_format(s, g);
    (p.left as f64, p.right as f64)
}
fn pan32(s: f32, g: f32) -> (f64, f64) {
    let p: Stereo = Panner::<f32>::to_sample_format(s, g);
    (p.left as f64, p.right as f64)
}

fn pan_law(c: &mut Case) -> R {
    let n = c.t(3000, 60000);
    for k in 0..n {
        let g: f32 = match c.rng.below(10) {
            0 => *c.rng.pick(&[-1.0, 1.0, 0.0, -0.0, 0.5, -0.5, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, 1e-45, 1.0000001, -1.0000001, 0.99999994, -0.99999994]),
            1 => (c.rng.below(2001) as f32 - 1000.0) / 1000.0,
            2 => c.rng.uni(-3.0, 3.0) as f32,
            3 => (c.rng.log_uni(1e-30, 1.0) * if c.rng.chance(0.5) { 1.0 } else { -1.0 }) as f32,
            4 => *c.rng.pick(&[f32::INFINITY, f32::NEG_INFINITY, 1e30, -1e30, f32::MAX, f32::MIN, 2.0, -2.0, 100.0, -100.0]),
            _ => c.rng.uni(-1.0, 1.0) as f32,
        };
        let s = match c.rng.below(8) {
            0 => *c.rng.pick(&[1.0f32, -1.0, 0.0, 0.5]),
            1 => c.rng.log_uni(1e-20, 1e20) as f32,
            _ => c.rng.uni(-1.0, 1.0) as f32,
        };
        let (el, er) = law(g as f64);
        let (el, er) = (10f64.powf(el / 20.0) * s as f64, 10f64.powf(er / 20.0) * s as f64);
        let (l, r) = pan64(s, g as f64);
        ensure!(rel(l, el, 2e-6) || close(l, el, 1e-37), "sample {} at {}: left {:e} for {:e}", s, g, l, el);
        ensure!(rel(r, er, 2e-6) || close(r, er, 1e-37), "sample {} at {}: right {:e} for {:e}", s, g, r, er);
        let (l2, r2) = pan32(s, g);
        ensure!(rel(l2, l, 2e-6) && rel(r2, r, 2e-6), "sample {} at {}: single precision {:e},{:e}, double {:e},{:e}", s, g, l2, r2, l, r);
        let (l3, r3) = pan64(s, -(g as f64));
        ensure!(rel(l3, r, 2e-6) && rel(r3, l, 2e-6), "sample {} at {} and {}: not mirrored: {:e},{:e} and {:e},{:e}", s, g, -g, l, r, l3, r3);
        let (l4, r4) = pan32(s, -g);
        ensure!(rel(l4, r, 2e-6) && rel(r4, l, 2e-6), "sample {} at {} and {}: not mirrored in single precision", s, g, -g);
        let m: Mono = Panner::<f32>::to_sample_format(s, g);
        let m2: Mono = Panner::<f64>::to_sample_format(s, g as f64);
        ensure!(same(m.mono, s) && same(m2.mono, s), "mono panning changed {} into {}, {}", s, m.mono, m2.mono);
        c.fold_f(l as f32);
        c.fold_f(r as f32);
        if k == 0 {
            c.desc(format!("sample {} at position {}: {:e}, {:e}; and {} more", s, g, l, r, n - 1));
        }
    }
    c.ev("positions", n as u64);
    c.nontrivial();
    Ok(())
}

fn pan_monotone(c: &mut Case) -> R {
    let n = c.t(4000, 100000);
    let mut gs: Vec<f64> = (0..n).map(|_| c.rng.uni(-1.05, 1.05)).collect();
    gs.extend_from_slice(&[-1.0, 0.0, 1.0]);
    gs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut prev = (f64::INFINITY, -1.0);
    let mut prev32 = prev;
    for g in &gs {
        let p = pan64(1.0, *g);
        ensure!(p.0 <= prev.0 * (1.0 + 1e-6) && p.1 >= prev.1 * (1.0 - 1e-6), "levels {:?} at {} after {:?}: not monotone", p, g, prev);
        prev = p;
        let p = pan32(1.0, *g as f32);
        ensure!(p.0 <= prev32.0 * (1.0 + 1e-6) && p.1 >= prev32.1 * (1.0 - 1e-6), "levels {:?} at {} after {:?}: not monotone (single precision)", p, g, prev32);
        prev32 = p;
        c.fold(g.to_bits());
    }
    c.ev("positions", gs.len() as u64);
    c.desc(format!("{} ascending positions in [-1.05,1.05], both precisions", gs.len()));
    c.nontrivial();
    Ok(())
}

pub const C07: Check = Check {
    id: "C07",
    rule: "positions on grids, at the break points, tiny, out of range and infinite, samples of both signs and all magnitudes: both sides compared with the law (linear in dB through 0/-120 dB, -3/-3 dB and -120/0 dB) to 2e-6 relative; single against double precision; mirrored positions; ascending sweeps for monotonicity. Every case is non-trivial; distinct by the levels seen.",
    assumptions: &["the position is not NaN"],
    exhaustive: false,
    fams: &[
        Fam { name: "law", quick: 16000, thorough: 24000, run: pan_law },
        Fam { name: "monotone", quick: 6400, thorough: 12000, run: pan_monotone },
    ],
};
