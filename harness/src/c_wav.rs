//! C01 to C04: WAV files, with a RIFF/PCM encoder and decoder of its own and
//! sources and destinations that misbehave on purpose.

use crate::ensure;
use crate::rng::*;
use crate::rt::*;
use crate::util::*;
use bae_rs::generators::{Generator, MonoWav};
use bae_rs::utils::{read_wav, write_wav, MonoResampler};
use bae_rs::*;
use std::io::{self, ErrorKind, Read, Write};

const DEPTHS: [u16; 3] = [8, 16, 24];

// ------------------------------------------------------------ the format

#[derive(Debug)]
struct Decoded {
    channels: u16,
    rate: u32,
    bits: u16,
    /// Stored integers in file order.
    ints: Vec<i32>,
}

fn u16_at(b: &[u8], i: usize) -> u16 {
    u16::from_le_bytes([b[i], b[i + 1]])
}

fn u32_at(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]])
}

/// Decodes exactly one well-formed file.
fn decode(b: &[u8]) -> Result<Decoded, String> {
    if b.len() < 12 {
        return Err(format!("only {} bytes", b.len()));
    }
    if &b[0..4] != b"RIFF" || &b[8..12] != b"WAVE" {
        return Err("no RIFF/WAVE identification".into());
    }
    let size = u32_at(b, 4) as usize;
    if size + 8 != b.len() {
        return Err(format!("RIFF size {} in a file of {} bytes", size, b.len()));
    }
    let (mut fmt, mut data): (Option<&[u8]>, Option<&[u8]>) = (None, None);
    let mut i = 12;
    while i < b.len() {
        if i + 8 > b.len() {
            return Err("partial chunk header".into());
        }
        let len = u32_at(b, i + 4) as usize;
        if i + 8 + len + len % 2 > b.len() {
            return Err(format!("chunk of {} bytes at {} exceeds the file", len, i));
        }
        let body = &b[i + 8..i + 8 + len];
        match &b[i..i + 4] {
            b"fmt " => {
                if fmt.is_some() || data.is_some() {
                    return Err("format chunk repeated or after the data".into());
                }
                fmt = Some(body);
            }
            b"data" => {
                if data.is_some() {
                    return Err("two data chunks".into());
                }
                data = Some(body);
            }
            _ => (),
        }
        if len % 2 == 1 && b[i + 8 + len] != 0 {
            return Err("padding byte not 0".into());
        }
        i += 8 + len + len % 2;
    }
    let (f, d) = match (fmt, data) {
        (Some(f), Some(d)) => (f, d),
        _ => return Err("format or data chunk missing".into()),
    };
    if f.len() < 16 {
        return Err("short format chunk".into());
    }
    if u16_at(f, 0) != 1 {
        return Err(format!("format {}", u16_at(f, 0)));
    }
    let (channels, rate, bits) = (u16_at(f, 2), u32_at(f, 4), u16_at(f, 14));
    let frame = channels as u32 * bits as u32 / 8;
    if frame == 0 || u16_at(f, 12) as u32 != frame || u32_at(f, 8) as u64 != frame as u64 * rate as u64 {
        return Err(format!(
            "{} channels, {} bits, {} Hz, but {} bytes per frame and {} per second",
            channels, bits, rate, u16_at(f, 12), u32_at(f, 8)
        ));
    }
    if d.len() % frame as usize != 0 {
        return Err(format!("{} bytes of data are not whole frames of {}", d.len(), frame));
    }
    let ints = match bits {
        8 => d.iter().map(|b| *b as i32).collect(),
        16 => d.chunks_exact(2).map(|b| i16::from_le_bytes([b[0], b[1]]) as i32).collect(),
        24 => d.chunks_exact(3).map(|b| i32::from_le_bytes([0, b[0], b[1], b[2]]) >> 8).collect(),
        _ => return Err(format!("{} bits", bits)),
    };
    Ok(Decoded { channels, rate, bits, ints })
}

/// Limits of the stored integers.
fn limits(bits: u16) -> (i32, i32) {
    match bits {
        8 => (0, 255),
        16 => (-32768, 32767),
        _ => (-8388608, 8388607),
    }
}

/// The integer -1 and 1 are stored as.
fn ends(bits: u16) -> (i32, i32) {
    match bits {
        8 => (0, 255),
        16 => (-32767, 32767),
        _ => (-8388607, 8388607),
    }
}

/// Stored integer of a sample before rounding, and how far the stored one may
/// be away (half a step, and single-precision rounding of the scaled value).
fn scaled(s: f32, bits: u16) -> (f64, f64) {
    let x = s as f64;
    let (v, e) = match bits {
        8 => (x * 128.0 + 128.0, 1e-4),
        16 => (x * 32767.0, 2e-3),
        _ => (x * 8388607.0, 0.26),
    };
    let (a, b) = limits(bits);
    (v.max(a as f64).min(b as f64), 0.5 + e)
}

/// Value of a stored integer.
fn value(i: i32, bits: u16) -> f64 {
    match bits {
        8 => (i as f64 - 128.0) / 128.0,
        16 => i as f64 / 32767.0,
        _ => i as f64 / 8388607.0,
    }
}

fn step(bits: u16) -> f64 {
    match bits {
        8 => 1.0 / 128.0,
        16 => 1.0 / 32767.0,
        _ => 1.0 / 8388607.0,
    }
}

fn chunk(v: &mut Vec<u8>, id: &[u8; 4], body: &[u8]) {
    v.extend_from_slice(id);
    v.extend_from_slice(&(body.len() as u32).to_le_bytes());
    v.extend_from_slice(body);
    if body.len() % 2 == 1 {
        v.push(0);
    }
}

fn fmt_body(channels: u16, rate: u32, bits: u16) -> Vec<u8> {
    let frame = channels as u32 * (bits as u32 / 8);
    let mut f = Vec::new();
    f.extend_from_slice(&1u16.to_le_bytes());
    f.extend_from_slice(&channels.to_le_bytes());
    f.extend_from_slice(&rate.to_le_bytes());
    f.extend_from_slice(&rate.wrapping_mul(frame).to_le_bytes());
    f.extend_from_slice(&(frame as u16).to_le_bytes());
    f.extend_from_slice(&bits.to_le_bytes());
    f
}

fn put(v: &mut Vec<u8>, i: i32, bits: u16) {
    match bits {
        8 => v.push(i as u8),
        16 => v.extend_from_slice(&(i as i16).to_le_bytes()),
        _ => v.extend_from_slice(&i.to_le_bytes()[0..3]),
    }
}

fn random_int(r: &mut Rng, bits: u16) -> i32 {
    let (a, b) = limits(bits);
    match r.below(12) {
        0 => a,
        1 => b,
        2 => (a + b + 1) / 2,
        3 => (a + b + 1) / 2 - 1 + r.below(3) as i32,
        4 => a + r.below(3) as i32,
        5 => b - r.below(3) as i32,
        _ => a + r.below((b - a) as usize + 1) as i32,
    }
}

fn junk(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.u32() as u8).collect()
}

/// A chunk a reader has to pass over.
fn other_chunk(r: &mut Rng, v: &mut Vec<u8>) {
    let n = if r.chance(0.3) { r.below(3) } else { r.log_range(0, 60) };
    match r.below(5) {
        0 => {
            let mut b = b"INFO".to_vec();
            let mut sub = Vec::new();
            let m = r.below(20);
            chunk(&mut sub, b"ISFT", &junk(r, m));
            b.extend_from_slice(&sub);
            chunk(v, b"LIST", &b);
        }
        1 => chunk(v, b"fact", &junk(r, 4)),
        2 => chunk(v, b"bext", &junk(r, n)),
        3 => chunk(v, b"JUNK", &junk(r, n)),
        _ => chunk(v, b"cue ", &junk(r, n)),
    }
}

struct FileSpec {
    channels: u16,
    rate: u32,
    bits: u16,
    len: usize,
    /// Chunks before the format, between format and data, after the data.
    extra: [usize; 3],
    long_fmt: bool,
}

fn random_spec(r: &mut Rng, max_len: usize) -> FileSpec {
    let extra = match r.below(20) {
        0..=9 => [0, 0, 0],
        10..=17 => [r.below(2), r.below(3), r.below(3)],
        18 => [r.log_range(0, 60), r.log_range(0, 60), r.below(3)],
        _ => [r.below(3), r.log_range(0, 300), r.log_range(0, 60)],
    };
    let bits = *r.pick(&DEPTHS);
    let max = 65535 / (bits as usize / 8);
    let channels = match r.below(32) {
        0..=7 => 1,
        8..=15 => 2,
        16..=23 => r.range(3, 9),
        24..=27 => r.log_range(1, 64),
        28..=30 => r.log_range(1, 600),
        _ => match r.below(4) {
            0 => r.log_range(1, max),
            1 => (256 * r.log_range(1, 255) + r.below(3)).min(max) - r.below(2),
            2 => max - r.below(3),
            _ => 1 << r.below(16),
        }
        .min(max),
    } as u16;
    FileSpec {
        channels,
        rate: match r.below(4) {
            0 => 48000,
            1 => *r.pick(&[44100, 8000, 22050, 96000, 192000, 11025, 1, 12345, u32::MAX]),
            _ => r.log_uni(1.0, u32::MAX as f64) as u32,
        },
        bits,
        len: if channels > 64 { r.below(4) } else { r.log_range(0, max_len) },
        extra,
        long_fmt: r.chance(0.15),
    }
}

/// Channels that have something to do with one another, now and then: the same,
/// shifted, negated, silent, held, or whole frames alike.
fn relation(r: &mut Rng, channels: usize, len: usize) -> Option<Box<dyn Fn(usize, usize) -> (usize, usize, i32)>> {
    if channels == 0 || len == 0 || !r.chance(0.25) {
        return None;
    }
    let (p, q) = (r.below(channels), r.below(channels));
    let at = r.below(len);
    let shift = r.log_range(1, len.max(2));
    Some(match r.below(9) {
        // All the same.
        0 | 1 => Box::new(|i, _| (i, 0, 1)),
        // One like another, or its negative.
        2 => Box::new(move |i, k| if k == p { (i, q, 1) } else { (i, k, 1) }),
        3 => Box::new(move |i, k| if k == p { (i, q, -1) } else { (i, k, 1) }),
        // All silent but one, or one silent.
        4 => Box::new(move |i, k| (i, k, if k == p { 1 } else { 0 })),
        5 => Box::new(move |i, k| (i, k, if k == p { 0 } else { 1 })),
        // The same from some frame on.
        6 => Box::new(move |i, k| if i >= at { (at, k, 1) } else { (i, k, 1) }),
        // The same again and again.
        7 => Box::new(move |i, k| (i % shift, k, 1)),
        // All the same, up to some frame.
        _ => Box::new(move |i, k| if i < at { (i, 0, 1) } else { (i, k, 1) }),
    })
}

fn relate_ints(r: &mut Rng, ints: &mut Vec<i32>, s: &FileSpec) {
    let ch = s.channels as usize;
    let (lo, hi) = limits(s.bits);
    if let Some(f) = relation(r, ch, s.len) {
        let old = ints.clone();
        for i in 0..s.len {
            for k in 0..ch {
                let (a, b, g) = f(i, k);
                let v = old[a * ch + b];
                let mid = if lo < 0 { 0 } else { 128 };
                ints[i * ch + k] = (mid + g * (v - mid)).max(lo).min(hi);
            }
        }
    }
}

fn relate_tracks(r: &mut Rng, t: &mut Vec<SampleTrackT>) {
    let len = t.first().map(|t| t.len()).unwrap_or(0);
    if let Some(f) = relation(r, t.len(), len) {
        let old = t.clone();
        for i in 0..len {
            for k in 0..old.len() {
                let (a, b, g) = f(i, k);
                t[k][i] = if g == 0 { 0.0 } else { g as f32 * old[b][a] };
            }
        }
    }
}

fn encode(r: &mut Rng, s: &FileSpec, ints: &[i32]) -> Vec<u8> {
    let mut v = b"RIFF\0\0\0\0WAVE".to_vec();
    for _ in 0..s.extra[0] {
        other_chunk(r, &mut v);
    }
    let mut f = fmt_body(s.channels, s.rate, s.bits);
    if s.long_fmt {
        f.extend_from_slice(&[0, 0]);
    }
    chunk(&mut v, b"fmt ", &f);
    for _ in 0..s.extra[1] {
        other_chunk(r, &mut v);
    }
    let mut d = Vec::with_capacity(ints.len() * 3);
    for i in ints {
        put(&mut d, *i, s.bits);
    }
    chunk(&mut v, b"data", &d);
    for _ in 0..s.extra[2] {
        other_chunk(r, &mut v);
    }
    let n = v.len() as u32 - 8;
    v[4..8].copy_from_slice(&n.to_le_bytes());
    v
}

// -------------------------------------------- sources and destinations

#[derive(Clone, Copy, Debug)]
enum Split {
    All,
    One,
    Random,
    Some(usize),
}

fn split(r: &mut Rng) -> Split {
    match r.below(5) {
        0 => Split::All,
        1 => Split::One,
        2 => Split::Some(r.range(2, 9)),
        _ => Split::Random,
    }
}

impl Split {
    fn take(&self, r: &mut Rng, n: usize) -> usize {
        match self {
            Split::All => n,
            Split::One => n.min(1),
            Split::Some(k) => n.min(*k),
            Split::Random => if n == 0 { 0 } else { r.log_range(1, n) },
        }
    }
}

/// The errors a source or destination may raise.
#[derive(Clone, Copy, Debug)]
enum Fault {
    Os(i32),
    Custom(ErrorKind),
    Plain(ErrorKind),
}

const KINDS: [ErrorKind; 12] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::AddrInUse,
];

impl Fault {
    fn random(r: &mut Rng) -> Fault {
        match r.below(4) {
            0 => Fault::Os(*r.pick(&[28, 5, 32, 104, 122, 27])),
            1 => Fault::Plain(*r.pick(&KINDS)),
            _ => Fault::Custom(*r.pick(&KINDS)),
        }
    }
    fn raise(&self) -> io::Error {
        match self {
            Fault::Os(n) => io::Error::from_raw_os_error(*n),
            Fault::Custom(k) => io::Error::new(*k, "injected fault"),
            Fault::Plain(k) => io::Error::from(*k),
        }
    }
    fn is(&self, e: &io::Error) -> bool {
        e.kind() == self.raise().kind()
            && match self {
                Fault::Os(n) => e.raw_os_error() == Some(*n) || e.to_string().contains(&self.raise().to_string()),
                Fault::Custom(_) => e.to_string().contains("injected fault"),
                Fault::Plain(_) => true,
            }
    }
}

struct Source<'a> {
    bytes: &'a [u8],
    pos: usize,
    split: Split,
    rng: Rng,
    interrupts: f64,
    fault: Option<(usize, Fault)>,
    raised: bool,
    reads: u64,
}

impl<'a> Source<'a> {
    fn new(bytes: &'a [u8], split: Split, seed: u64) -> Self {
        Source { bytes, pos: 0, split, rng: Rng::new(seed), interrupts: 0.0, fault: None, raised: false, reads: 0 }
    }
}

impl<'a> Read for Source<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.interrupts > 0.0 && self.rng.chance(self.interrupts) {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut left = self.bytes.len() - self.pos;
        if let Some((at, f)) = self.fault {
            if self.pos >= at && !buf.is_empty() {
                self.raised = true;
                return Err(f.raise());
            }
            left = left.min(at - self.pos.min(at));
        }
        let n = self.split.take(&mut self.rng, buf.len().min(left));
        buf[..n].copy_from_slice(&self.bytes[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct Sink {
    got: Vec<u8>,
    split: Split,
    rng: Rng,
    interrupts: f64,
    /// After so many bytes: the fault, or accepting nothing.
    fault: Option<(usize, Option<Fault>)>,
    /// The fault goes away after having been raised once.
    once: bool,
    raised: u64,
    writes: u64,
}

impl Sink {
    fn new(split: Split, seed: u64) -> Self {
        Sink { got: Vec::new(), split, rng: Rng::new(seed), interrupts: 0.0, fault: None, once: false, raised: 0, writes: 0 }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.writes += 1;
        if self.interrupts > 0.0 && self.rng.chance(self.interrupts) {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut room = buf.len();
        if let Some((at, f)) = self.fault {
            if !(self.once && self.raised > 0) {
                if self.got.len() >= at {
                    self.raised += 1;
                    return match f {
                        Some(f) => Err(f.raise()),
                        None => Ok(0),
                    };
                }
                room = room.min(at - self.got.len());
            }
        }
        let n = self.split.take(&mut self.rng, room);
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- C01

fn a_sample(r: &mut Rng, style: usize, bits: u16) -> f32 {
    match style {
        0 => r.sample(),
        1 => {
            // Around the borders between two stored integers.
            let (a, b) = limits(bits);
            let i = a + r.below((b - a) as usize + 1) as i32;
            (value(i, bits) + 0.5 * step(bits) + r.uni(-0.02, 0.02) * step(bits)) as f32
        }
        2 => *r.pick(&[
            1.0f32, -1.0, 0.0, -0.0, 0.99999994, -0.99999994, 1.0000001, -1.0000001, 1e-45, -1e-45, 1e-20, f32::MAX, f32::MIN, 2.0, -2.0,
            1.5, -1.5, 0.5, -0.5, f32::MIN_POSITIVE, 1.00390625, -1.00390625,
        ]),
        3 => r.uni(-3.0, 3.0) as f32,
        4 => wild_f32(r),
        _ => (r.log_uni(1e-9, 1e9) * if r.chance(0.5) { 1.0 } else { -1.0 }) as f32,
    }
}

fn tracks(r: &mut Rng, channels: usize, len: usize, bits: u16) -> Vec<SampleTrackT> {
    let mixed = r.below(7);
    let mut t: Vec<SampleTrackT> = (0..channels)
        .map(|_| {
            (0..len)
                .map(|_| {
                    let s = if mixed == 6 { r.below(6) } else { mixed };
                    a_sample(r, s, bits)
                })
                .collect()
        })
        .collect();
    relate_tracks(r, &mut t);
    t
}

/// Writes and judges the file.
fn written(c: &mut Case, t: &[SampleTrackT], bits: u16, clip: bool) -> Result<Vec<u8>, Fail> {
    let how = split(&mut c.rng);
    let mut k = Sink::new(how, c.rng.u64());
    if c.rng.chance(0.5) {
        k.split = Split::All;
    }
    let what = || format!("{} channels of {} samples at {} bits, clip {}", t.len(), t.first().map(|t| t.len()).unwrap_or(0), bits, clip);
    if let Err(e) = write_wav(t.to_vec(), bits, &mut k, clip) {
        return Err(Fail::new(format!("writing {} fails: {}", what(), e)));
    }
    let d = decode(&k.got).map_err(|e| Fail::new(format!("writing {} gives no well-formed file: {}", what(), e)))?;
    ensure!(
        d.channels as usize == t.len() && d.rate as u64 == SAMPLE_RATE && d.bits == bits,
        "writing {}: the header says {} channels, {} Hz, {} bits", what(), d.channels, d.rate, d.bits
    );
    let len = t[0].len();
    ensure!(d.ints.len() == len * t.len(), "writing {}: {} stored values", what(), d.ints.len());
    for i in 0..len {
        for (ch, t) in t.iter().enumerate() {
            let (s, v) = (t[i], d.ints[i * d.channels as usize + ch]);
            let (e, tol) = scaled(s, bits);
            let ok = if clip && s > 1.0 {
                v == ends(bits).1
            } else if clip && s < -1.0 {
                v == ends(bits).0
            } else {
                (v as f64 - e).abs() <= tol
            };
            ensure!(
                ok,
                "writing {}: sample {} of channel {}, {:e}, is stored as {}, scaled to full scale it is {}", what(), i, ch, s, v, e
            );
            if s.abs() > 1.0 {
                c.ev(if clip { "clipped" } else { "out_of_range_unclipped" }, 1);
            }
        }
    }
    c.ev("files_written", 1);
    c.ev("values_decoded", d.ints.len() as u64);
    c.ev("bytes", k.got.len() as u64);
    if k.got.len() % 2 == 0 && (d.ints.len() * bits as usize / 8) % 2 == 1 {
        c.ev("padded", 1);
    }
    for b in k.got.iter().take(300) {
        c.fold(*b as u64);
    }
    Ok(k.got)
}

fn write_files(c: &mut Case) -> R {
    let bits = *c.rng.pick(&DEPTHS);
    let channels = match c.rng.below(10) {
        0..=3 => 1,
        4..=6 => c.rng.range(2, 8),
        7 | 8 => c.rng.log_range(1, 40),
        _ => c.rng.log_range(1, 1000),
    };
    let len = if channels > 40 { c.rng.below(6) } else { c.rng.log_range(0, c.t(400, 3000)) };
    let t = tracks(&mut c.rng, channels, len, bits);
    let clip = c.rng.chance(0.5);
    c.desc(format!("{} channels of {} samples, {} bits, clip {}, e.g. {}", channels, len, bits, clip, show(&t[0])));
    let a = written(c, &t, bits, clip)?;
    // The same samples with the other setting: in-range ones are the same.
    let b = written(c, &t, bits, !clip)?;
    let (a, b) = (decode(&a).unwrap(), decode(&b).unwrap());
    for i in 0..len {
        for (ch, t) in t.iter().enumerate() {
            let k = i * channels + ch;
            ensure!(
                t[i].abs() > 1.0 || a.ints[k] == b.ints[k],
                "sample {} of channel {}, {:e}, at {} bits is stored as {} and with clipping switched over as {}", i, ch, t[i], bits, a.ints[k], b.ints[k]
            );
        }
    }
    if len > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Channel counts up to the limit.
fn write_many(c: &mut Case) -> R {
    let bits = DEPTHS[c.idx as usize % 3];
    let max = 65535 / (bits as usize / 8);
    let channels = match c.idx / 3 % 3 {
        0 => max,
        1 => max - c.rng.below(10),
        _ => c.rng.log_range(256, max),
    };
    let len = c.rng.range(1, 3);
    let t = tracks(&mut c.rng, channels, len, bits);
    c.desc(format!("{} channels of {} samples, {} bits", channels, len, bits));
    let clip = c.rng.chance(0.5);
    written(c, &t, bits, clip)?;
    c.nontrivial();
    Ok(())
}

/// Long tracks.
fn write_long(c: &mut Case) -> R {
    let bits = DEPTHS[c.idx as usize % 3];
    let channels = c.rng.range(1, 3);
    let (channels, len) = match c.idx {
        // More frames than a single-precision count holds.
        3 => (1, 16_800_000 + c.rng.below(200_000)),
        0 | 1 | 2 => (channels, 1_050_000 + c.rng.below(1_200_000)),
        _ => (channels, c.rng.log_range(50_000, c.t(600_000, 6_000_000)) | 1),
    };
    let mut r = Rng::new(c.rng.u64());
    let t: Vec<SampleTrackT> = match c.rng.below(4) {
        0 => (0..channels).map(|_| lulls(&mut r, len)).collect(),
        // Together, perhaps altogether silent.
        1 => {
            let k = c.rng.below(len + 1);
            let silent = c.rng.chance(0.2);
            let lead = c.rng.chance(0.3);
            (0..channels).map(|_| (0..len).map(|i| if silent || (i < k) == lead { 0.0 } else { r.sample() }).collect()).collect()
        }
        _ => (0..channels).map(|_| (0..len).map(|_| r.uni(-1.2, 1.2) as f32).collect()).collect(),
    };
    let mut t = t;
    relate_tracks(&mut r, &mut t);
    c.desc(format!("{} channels of {} samples, {} bits", channels, len, bits));
    let clip = c.rng.chance(0.5);
    written(c, &t, bits, clip)?;
    c.nontrivial();
    Ok(())
}

pub const C01: Check = Check {
    id: "C01",
    rule: "tracks of 1 to 1000 channels and 0 to 400 (thorough 3000) samples drawn from in-range values, values around the borders of quantization steps, exact end points, denormals and out-of-range values up to the largest float, at 8, 16 and 24 bits, with clipping on and off; channel counts up to the most a header can describe; tracks of up to 600000 (6 million) samples, three of over 2^20 and one of over 2^24, half of them with long silent or constant stretches, also at the ends; a quarter with channels equal or opposite to others, silent, held or repeating; destinations that take all, single bytes or random portions. Every delivered file is decoded by an independent RIFF/PCM decoder that checks every size, the padding and the header, and every stored integer is compared with the scaled sample. Non-trivial: at least one frame; distinct by the bytes delivered.",
    assumptions: &["NaN samples are not part of the property", "the sample may be scaled in single precision, so that at 24 bits the neighbouring step is accepted within a quarter of a step around the border"],
    exhaustive: false,
    fams: &[
        Fam { name: "files", quick: 320000, thorough: 1800000, run: write_files },
        Fam { name: "many", quick: 1920, thorough: 9300, run: write_many },
        Fam { name: "long", quick: 720, thorough: 1800, run: write_long },
    ],
};

// ---------------------------------------------------------------- C35

/// Reads a file, writes what was read, and so on: nothing gets lost.
fn again(c: &mut Case, s: &FileSpec, ints: &[i32]) -> R {
    let bytes = encode(&mut c.rng, s, ints);
    let how = split(&mut c.rng);
    let read = |c: &mut Case, b: &[u8], what: &str| {
        let mut src = Source::new(b, if b.len() > 100_000 { Split::All } else { how }, c.rng.u64());
        read_wav(&mut src).map_err(|e| Fail::new(format!("reading {} fails: {}", what, e)))
    };
    let write = |c: &mut Case, t: &[SampleTrackT], bits: u16, clip: bool| -> Result<Vec<u8>, Fail> {
        let mut k = Sink::new(if ints.len() > 30_000 { Split::All } else { how }, c.rng.u64());
        write_wav(t.to_vec(), bits, &mut k, clip).map_err(|e| Fail::new(format!("writing at {} bits fails: {}", bits, e)))?;
        Ok(k.got)
    };
    let (_, t) = read(c, &bytes, "the file")?;
    let clip = c.rng.chance(0.5);
    let (lo, _) = limits(s.bits);
    let (end, _) = ends(s.bits);
    let fits = |i: i32, clip: bool| if clip && i == lo { end } else { i };
    // At the same depth, clipped or not.
    for clip in [clip, !clip] {
        let w = write(c, &t, s.bits, clip)?;
        let d = decode(&w).map_err(|e| Fail::new(format!("what was read is written as no well-formed file: {}", e)))?;
        ensure!(d.channels == s.channels && d.bits == s.bits && d.ints.len() == ints.len(), "{} channels, {} bits, {} values written of {} channels, {} bits, {} values read", d.channels, d.bits, d.ints.len(), s.channels, s.bits, ints.len());
        if let Some(k) = (0..ints.len()).find(|k| d.ints[*k] != fits(ints[*k], clip)) {
            return Err(Fail::new(format!("value {} of {} ({} channels, {} bits, clip {}) was {} and is written as {}", k, ints.len(), s.channels, s.bits, clip, ints[k], d.ints[k])));
        }
        // Once more: the same bytes.
        let (_, u) = read(c, &w, "what was written")?;
        let w2 = write(c, &u, s.bits, clip)?;
        if w != w2 {
            let at = w.iter().zip(&w2).position(|(a, b)| a != b);
            return Err(Fail::new(format!("written, read and written again, the file differs at byte {:?} ({} and {} bytes)", at, w.len(), w2.len())));
        }
        c.ev("rewrites", 2);
    }
    // Through a deeper format and back.
    for deep in DEPTHS.iter().filter(|d| **d > s.bits && **d as usize / 8 * s.channels as usize <= 65535) {
        let w = write(c, &t, *deep, false)?;
        let (_, u) = read(c, &w, "a deeper file")?;
        let w = write(c, &u, s.bits, false)?;
        let d = decode(&w).map_err(|e| Fail::new(format!("no well-formed file: {}", e)))?;
        ensure!(d.ints.len() == ints.len(), "{} values of {} after {} bits", d.ints.len(), ints.len(), deep);
        // The lowest 16-bit value lies beyond what 24 bits hold.
        if let Some(k) = (0..ints.len()).find(|k| d.ints[*k] != ints[*k] && !(ints[*k] == lo && d.ints[*k] == end)) {
            return Err(Fail::new(format!("value {} of {} ({} channels, {} bits) was {} and is {} after {} bits", k, ints.len(), s.channels, s.bits, ints[k], d.ints[k], deep)));
        }
        c.ev("through_deeper", 1);
    }
    c.ev("samples", ints.len() as u64);
    c.fold(hash_str(&format!("{:?}", &ints[..ints.len().min(50)])));
    c.desc(format!("{} channels, {} bits, {} frames, other chunks {:?}", s.channels, s.bits, s.len, s.extra));
    if s.len > 0 {
        c.nontrivial();
    }
    Ok(())
}

fn again_files(c: &mut Case) -> R {
    let mut s = random_spec(&mut c.rng, 300);
    if s.channels > 2000 {
        s.len = s.len.min(1);
    }
    let mut ints: Vec<i32> = (0..s.len * s.channels as usize).map(|_| random_int(&mut c.rng, s.bits)).collect();
    relate_ints(&mut c.rng, &mut ints, &s);
    again(c, &s, &ints)
}

/// Every value of every depth.
fn again_values(c: &mut Case) -> R {
    let bits = if c.idx == 0 { 8 } else if c.idx == 1 { 16 } else { 24 };
    let (a, b) = limits(bits);
    let mut ints: Vec<i32> = if bits < 24 {
        (a..=b).collect()
    } else {
        let n = (b as i64 - a as i64 + 1) / 64;
        let k = (c.idx as i64 - 2) % 64;
        (0..n).map(|i| (a as i64 + k * n + i) as i32).collect()
    };
    c.rng.shuffle(&mut ints);
    let channels = *c.rng.pick(&[1u16, 2, 4, 8]);
    let s = FileSpec { channels, rate: 48000, bits, len: ints.len() / channels as usize, extra: [0; 3], long_fmt: false };
    again(c, &s, &ints)
}

fn again_long(c: &mut Case) -> R {
    let bits = *c.rng.pick(&DEPTHS);
    let channels = c.rng.range(1, 6) as u16;
    let len = c.rng.log_range(20_000, c.t(300_000, 3_000_000));
    let s = FileSpec { channels, rate: 48000, bits, len, extra: [0; 3], long_fmt: false };
    let mut ints: Vec<i32> = (0..len * channels as usize).map(|_| random_int(&mut c.rng, bits)).collect();
    if c.rng.chance(0.5) {
        let (p, q) = (c.rng.below(ints.len()), c.rng.below(ints.len()));
        let silent = if bits == 8 { 128 } else { 0 };
        ints[p.min(q)..p.max(q)].iter_mut().for_each(|v| *v = silent);
    }
    relate_ints(&mut c.rng, &mut ints, &s);
    again(c, &s, &ints)
}

pub const C35: Check = Check {
    id: "C35",
    rule: "files from an independent encoder (all depths, channel counts to the most a header can describe, extra chunks, extreme values; every 8-, 16- and 24-bit value; up to 300000, thorough 3 million frames; a quarter with channels equal or opposite to others, silent, held or repeating) are read and written again at their depth, with and without clipping, and through every deeper depth and back; the stored integers of the result, taken by an independent decoder, must be those of the first file (the lowest one clipped to minus full scale with clipping on), and reading and writing once more must give the same bytes. Non-trivial: at least one frame; distinct by values.",
    assumptions: &["a valid file has its padding bytes and a RIFF size that fits"],
    exhaustive: false,
    fams: &[
        Fam { name: "files", quick: 80000, thorough: 1000000, run: again_files },
        Fam { name: "values", quick: 66, thorough: 66, run: again_values },
        Fam { name: "long", quick: 200, thorough: 1500, run: again_long },
    ],
};

// ---------------------------------------------------------------- C02

fn compare_read(h: &wav::Header, t: &[SampleTrackT], s: &FileSpec, ints: &[i32]) -> R {
    let frame = s.channels * (s.bits / 8);
    ensure!(
        h.channel_count == s.channels
            && h.sampling_rate == s.rate
            && h.bits_per_sample == s.bits
            && h.audio_format == 1
            && h.bytes_per_sample == frame
            && h.bytes_per_second == s.rate.wrapping_mul(frame as u32),
        "header {:?} of a file with {} channels, {} Hz, {} bits", h, s.channels, s.rate, s.bits
    );
    ensure!(t.len() == s.channels as usize, "{} tracks from {} channels", t.len(), s.channels);
    for (ch, t) in t.iter().enumerate() {
        ensure!(t.len() == s.len, "track {} has {} samples, the file {} frames", ch, t.len(), s.len);
        for (i, v) in t.iter().enumerate() {
            let k = ints[i * s.channels as usize + ch];
            ensure!(
                close(*v as f64, value(k, s.bits), 2e-7),
                "frame {} of channel {} is stored as {} ({} bits) and read as {}, not {}", i, ch, k, s.bits, v, value(k, s.bits)
            );
        }
    }
    Ok(())
}

fn read_files(c: &mut Case) -> R {
    let s = random_spec(&mut c.rng, 300);
    let mut ints: Vec<i32> = (0..s.len * s.channels as usize).map(|_| random_int(&mut c.rng, s.bits)).collect();
    relate_ints(&mut c.rng, &mut ints, &s);
    let bytes = encode(&mut c.rng, &s, &ints);
    let how = split(&mut c.rng);
    let mut src = Source::new(&bytes, how, c.rng.u64());
    if c.rng.chance(0.3) {
        src.interrupts = 0.2;
    }
    c.desc(format!(
        "{} channels, {} Hz, {} bits, {} frames, other chunks {:?}, {} bytes read by {:?}, interruptions {}",
        s.channels, s.rate, s.bits, s.len, s.extra, bytes.len(), how, src.interrupts
    ));
    match read_wav(&mut src) {
        Ok((h, t)) => compare_read(&h, &t, &s, &ints)?,
        Err(e) => return Err(Fail::new(format!("reading fails: {:?}", e))),
    }
    c.ev("files_read", 1);
    c.ev("reads", src.reads);
    c.ev("samples", ints.len() as u64);
    if s.extra[1] > 0 {
        c.ev("chunks_before_data", 1);
    }
    c.fold(hash_str(&format!("{:?}", &ints[..ints.len().min(50)])));
    if s.len > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Every value of a depth.
fn read_values(c: &mut Case) -> R {
    let bits = if c.idx == 0 { 8 } else if c.idx == 1 { 16 } else { 24 };
    let (a, b) = limits(bits);
    let mut ints: Vec<i32> = if bits < 24 {
        (a..=b).collect()
    } else {
        let n = (b as i64 - a as i64 + 1) / 64;
        let k = (c.idx as i64 - 2) % 64;
        (0..n).map(|i| (a as i64 + k * n + i) as i32).collect()
    };
    c.rng.shuffle(&mut ints);
    let channels = *c.rng.pick(&[1u16, 2, 4, 8]);
    let s = FileSpec { channels, rate: 44100, bits, len: ints.len() / channels as usize, extra: [0; 3], long_fmt: false };
    let bytes = encode(&mut c.rng, &s, &ints);
    c.desc(format!("{} shuffled values of {} bits on {} channels", ints.len(), bits, channels));
    let (h, t) = read_wav(&mut &bytes[..]).map_err(|e| Fail::new(format!("reading fails: {:?}", e)))?;
    compare_read(&h, &t, &s, &ints)?;
    c.ev("files_read", 1);
    c.ev("samples", ints.len() as u64);
    c.nontrivial();
    Ok(())
}

/// Many samples, so that every narrower count overflows.
fn read_big(c: &mut Case) -> R {
    let bits = DEPTHS[c.idx as usize % 3];
    let channels = match c.idx / 3 % 4 {
        0 => 1,
        1 => 3,
        2 => *c.rng.pick(&[2u16, 5, 6, 7, 10, 24]),
        _ => c.rng.log_range(1, 300) as u16,
    };
    // Beyond the integers a single-precision number can count, now and then.
    let total = if c.idx == 3 || c.idx == 4 || c.idx == 5 || c.thorough && c.idx % 10 == 9 { 17_500_000 } else { c.rng.log_range(70_000, c.t(400_000, 3_000_000)) };
    let len = total / channels as usize + 1;
    let s = FileSpec { channels, rate: 48000, bits, len, extra: [0, c.rng.below(2), 0], long_fmt: false };
    let mut r = Rng::new(c.rng.u64());
    let (a, b) = limits(bits);
    let mut ints: Vec<i32> = (0..len * channels as usize).map(|_| a + r.below((b - a) as usize + 1) as i32).collect();
    // Silent for long, or holding one value.
    if c.rng.chance(0.4) {
        let hold = if c.rng.chance(0.6) { if bits == 8 { 128 } else { 0 } } else { ints[0] };
        let (p, q) = (c.rng.below(ints.len() + 1), c.rng.below(ints.len() + 1));
        let (p, q) = match c.rng.below(4) {
            0 => (0, q),
            1 => (p, ints.len()),
            2 => (0, ints.len()),
            _ => (p.min(q), p.max(q)),
        };
        ints[p..q].iter_mut().for_each(|v| *v = hold);
    }
    relate_ints(&mut r, &mut ints, &s);
    let bytes = encode(&mut r, &s, &ints);
    c.desc(format!("{} frames on {} channels at {} bits", len, channels, bits));
    let how = *c.rng.pick(&[Split::All, Split::Some(4093)]);
    let mut src = Source::new(&bytes, how, c.rng.u64());
    let (h, t) = read_wav(&mut src).map_err(|e| Fail::new(format!("reading fails: {:?}", e)))?;
    compare_read(&h, &t, &s, &ints)?;
    c.ev("files_read", 1);
    c.ev("samples", ints.len() as u64);
    c.nontrivial();
    Ok(())
}

fn round_trip(c: &mut Case) -> R {
    let bits = *c.rng.pick(&DEPTHS);
    let channels = c.rng.log_range(1, 12);
    let len = c.rng.log_range(0, 400);
    let t = tracks(&mut c.rng, channels, len, bits);
    let clip = c.rng.chance(0.5);
    c.desc(format!("{} channels of {} samples, {} bits, clip {}, written and read back; e.g. {}", channels, len, bits, clip, show(&t[0])));
    let mut b = Vec::new();
    write_wav(t.clone(), bits, &mut b, clip).map_err(|e| Fail::new(format!("writing fails: {}", e)))?;
    let how = split(&mut c.rng);
    let mut src = Source::new(&b, how, c.rng.u64());
    let (h, u) = read_wav(&mut src).map_err(|e| Fail::new(format!("reading fails: {}", e)))?;
    ensure!(
        h.channel_count as usize == channels && h.bits_per_sample == bits && h.sampling_rate as u64 == SAMPLE_RATE,
        "header read back: {:?}", h
    );
    ensure!(u.len() == channels, "{} tracks read back of {}", u.len(), channels);
    for ch in 0..channels {
        ensure!(u[ch].len() == len, "track {}: {} samples read back of {}", ch, u[ch].len(), len);
        for i in 0..len {
            let (x, y) = (t[ch][i], u[ch][i]);
            if x.abs() <= 1.0 {
                ensure!(
                    close(x as f64, y as f64, 1.0001 * step(bits)),
                    "sample {} of channel {}, {:e}, at {} bits comes back as {:e}", i, ch, x, bits, y
                );
            }
            c.fold_f(y);
        }
    }
    c.ev("round_trips", 1);
    c.ev("samples", (channels * len) as u64);
    if len > 0 {
        c.nontrivial();
    }
    Ok(())
}

fn player(c: &mut Case) -> R {
    let mut s = random_spec(&mut c.rng, 200);
    s.channels = s.channels.min(6);
    s.rate = match c.rng.below(3) {
        0 => 48000,
        1 => *c.rng.pick(&[44100, 22050, 96000, 8000, 11025]),
        _ => c.rng.log_uni(500.0, 400000.0) as u32,
    };
    let mut ints: Vec<i32> = (0..s.len * s.channels as usize).map(|_| random_int(&mut c.rng, s.bits)).collect();
    relate_ints(&mut c.rng, &mut ints, &s);
    let bytes = encode(&mut c.rng, &s, &ints);
    let how = split(&mut c.rng);
    let mut src = Source::new(&bytes, how, c.rng.u64());
    c.desc(format!("player of {} channels, {} Hz, {} bits, {} frames", s.channels, s.rate, s.bits, s.len));
    let mut p = MonoWav::from_source(&mut src);
    let first: Vec<f64> = (0..s.len).map(|i| value(ints[i * s.channels as usize], s.bits)).collect();
    let mut twin = MonoResampler::new(first.iter().map(|v| Mono { mono: *v as f32 }).collect(), s.rate as f64, 0, 0);
    let ratio = s.rate as f64 / SR;
    let n = ((s.len as f64 / ratio) as usize + 5).min(20000);
    for k in 0..n {
        let (y, w) = (p.process(), twin.process());
        ensure!(
            close(y as f64, w as f64, 1e-5),
            "output {} of the player is {}, of a resampler of the first channel at {} Hz {}", k, y, s.rate, w
        );
        // And by the positions in the file, away from its end.
        let x = k as f64 * ratio;
        let i = x.floor() as usize;
        if i + 1 < s.len {
            let f = x - i as f64;
            let e = first[i] * (1.0 - f) + first[i + 1] * f;
            ensure!(
                close(y as f64, e, 1e-5 + 1e-9 * k as f64 * (first[i] - first[i + 1]).abs()),
                "output {} of the player is {}, the file holds {} at position {}", k, y, e, x
            );
            c.ev("positions", 1);
        }
        c.fold_f(y);
    }
    c.ev("played", n as u64);
    if s.len > 1 {
        c.nontrivial();
    }
    Ok(())
}

pub const C02: Check = Check {
    id: "C02",
    rule: "files from an independent encoder: 1 channel to the most a header can describe, any sampling rate, 0 to 300 frames (some up to 400000, thorough 17.5 million samples, also silent for long) of extreme and random values (all 8-, 16- and 24-bit values), 16- and 18-byte format chunks, other chunks before, between and after; a quarter with channels equal or opposite to others, silent, held or repeating; read all at once, byte by byte, in random portions and with interruptions; written tracks read back; players built from such sources compared with the stored first channel at the file's rate. Non-trivial: at least one frame; distinct by format, split and values.",
    assumptions: &["a valid file has its padding bytes and a RIFF size that fits"],
    exhaustive: false,
    fams: &[
        Fam { name: "files", quick: 320000, thorough: 2600000, run: read_files },
        Fam { name: "values", quick: 66, thorough: 66, run: read_values },
        Fam { name: "big", quick: 1920, thorough: 8000, run: read_big },
        Fam { name: "round-trip", quick: 240000, thorough: 1600000, run: round_trip },
        Fam { name: "player", quick: 48000, thorough: 330000, run: player },
    ],
};

// ---------------------------------------------------------------- C03

fn invalid_arguments(c: &mut Case) -> R {
    let kind = c.rng.below(4);
    let clip = c.rng.chance(0.5);
    let (t, bits): (Vec<SampleTrackT>, u16) = match kind {
        0 => (vec![], *c.rng.pick(&[8, 16, 24, 32, 0, 12])),
        1 => {
            let n = c.rng.range(2, 9);
            let len = c.rng.log_range(0, 50);
            let bits = *c.rng.pick(&DEPTHS);
            let mut t = tracks(&mut c.rng, n, len, bits);
            let k = c.rng.below(n);
            match c.rng.below(4) {
                0 => t[k].push(0.5),
                // The sum stays what it should be.
                3 if len > 0 => {
                    let j = (k + c.rng.range(1, n - 1)) % n;
                    let m = c.rng.range(1, len);
                    let l = t[j].len() + m;
                    t[j].resize(l, 0.0);
                    t[k].truncate(len - m);
                }
                1 if len > 0 => {
                    t[k].pop();
                }
                _ => {
                    let m = len + c.rng.range(1, 5);
                    t[k].resize(m, 0.0);
                }
            }
            (t, bits)
        }
        2 => {
            let bits = loop {
                let b = match c.rng.below(3) {
                    0 => c.rng.below(70) as u16,
                    1 => *c.rng.pick(&[0, 1, 4, 7, 9, 12, 15, 17, 20, 23, 25, 32, 48, 64, 256 + 8, 65535, 0x1000 + 16]),
                    _ => c.rng.u32() as u16,
                };
                if !DEPTHS.contains(&b) {
                    break b;
                }
            };
            let n = c.rng.range(1, 4);
            let len = c.rng.log_range(0, 50);
            (tracks(&mut c.rng, n, len, 16), bits)
        }
        _ => {
            let bits = *c.rng.pick(&DEPTHS);
            let max = 65535 / (bits as usize / 8);
            let n = match c.rng.below(4) {
                0 => max + 1,
                1 => 65536,
                2 => 65536 + c.rng.range(1, 3),
                _ => max + c.rng.log_range(1, 70000),
            };
            let len = c.rng.below(2);
            (vec![vec![0.25; len]; n.max(max + 1)], bits)
        }
    };
    let lens: Vec<usize> = t.iter().take(9).map(|t| t.len()).collect();
    c.desc(format!("{} channels of lengths {:?}.., {} bits, clip {}", t.len(), lens, bits, clip));
    let mut k = Sink::new(Split::All, 1);
    let r = write_wav(t, bits, &mut k, clip);
    ensure!(r.is_err(), "writing succeeds");
    ensure!(k.got.is_empty() && k.writes == 0, "{} bytes sent to the destination", k.got.len());
    c.ev(["no_channels", "lengths_differ", "unsupported_depth", "too_many_channels"][kind], 1);
    c.nontrivial();
    Ok(())
}

fn faulty_destination(c: &mut Case) -> R {
    let bits = *c.rng.pick(&DEPTHS);
    let channels = c.rng.range(1, 5);
    let max = if c.rng.chance(0.1) { 20000 } else { 40 };
    let len = c.rng.log_range(0, max);
    let t = tracks(&mut c.rng, channels, len, bits);
    let clip = c.rng.chance(0.5);
    let mut full = Vec::new();
    write_wav(t.clone(), bits, &mut full, clip).map_err(|e| Fail::new(format!("writing to memory fails: {}", e)))?;
    c.desc(format!("{} channels of {} samples, {} bits, clip {}: failures at {} offsets", channels, len, bits, clip, full.len() + 1));
    let all = full.len() <= 400;
    let n = if all { full.len() + 2 } else { 60 };
    for i in 0..n {
        let at = if all {
            i
        } else {
            match c.rng.below(3) {
                0 => c.rng.below(50),
                1 => full.len() - c.rng.below(4),
                _ => c.rng.below(full.len() + 1),
            }
        };
        let how = split(&mut c.rng);
        let mut k = Sink::new(how, c.rng.u64());
        let f = Fault::random(&mut c.rng);
        let f = if c.rng.chance(0.15) { None } else { Some(f) };
        k.fault = Some((at, f));
        k.once = c.rng.chance(0.2);
        if c.rng.chance(0.25) {
            k.interrupts = c.rng.uni(0.0, 0.5);
        }
        let what = format!("destination taking {:?} with fault {:?} after {} of {} bytes (once: {}, interruptions {:.2})", how, f, at, full.len(), k.once, k.interrupts);
        let r = write_wav(t.clone(), bits, &mut k, clip);
        ensure!(
            k.got.len() <= full.len() && k.got[..] == full[..k.got.len()],
            "{}: the bytes received are not the beginning of the file", what
        );
        match r {
            Ok(()) => {
                ensure!(k.got.len() == full.len(), "{}: success reported with {} bytes delivered", what, k.got.len());
                c.ev("delivered", 1);
            }
            Err(e) => {
                let interrupted = e.kind() == ErrorKind::Interrupted && k.interrupts > 0.0;
                if !interrupted {
                    ensure!(k.raised > 0, "{}: error {:?}, which the destination has not raised", what, e);
                    if let Some(f) = f {
                        ensure!(f.is(&e), "{}: error {:?} returned", what, e);
                    }
                }
                c.ev("errors_returned", 1);
            }
        }
        c.ev("faulty_writes", 1);
        c.ev("write_calls", k.writes);
        c.fold(k.writes);
    }
    c.nontrivial();
    Ok(())
}

pub const C03: Check = Check {
    id: "C03",
    rule: "writes with no channels, differing lengths, unsupported depths (all small ones, random 16-bit ones) and too many channels must fail with nothing sent; files of random format are written to destinations that fail with any kind of error, or take nothing, after every number of bytes (files up to 400 bytes; sampled offsets beyond), permanently or once, taking all, single bytes or random portions with random interruptions: bytes received must be the beginning of the file, success reported only with the whole file delivered, otherwise the destination's error. Non-trivial: always; distinct by arguments and sequence of calls.",
    assumptions: &["an interrupted write may be repeated or reported"],
    exhaustive: false,
    fams: &[
        Fam { name: "invalid", quick: 22500, thorough: 130000, run: invalid_arguments },
        Fam { name: "faults", quick: 30000, thorough: 550000, run: faulty_destination },
    ],
};

// ---------------------------------------------------------------- C04

/// Reads and judges what every read has to satisfy.
fn read_any(c: &mut Case, bytes: &[u8]) -> R {
    let how = if c.rng.chance(0.7) { Split::All } else { split(&mut c.rng) };
    let mut src = Source::new(bytes, how, c.rng.u64());
    if c.rng.chance(0.1) {
        src.interrupts = 0.2;
    }
    if c.rng.chance(0.1) {
        let at = c.rng.below(bytes.len() + 1);
        src.fault = Some((at, Fault::random(&mut c.rng)));
    }
    let r = match guard(|| read_wav(&mut src)) {
        Ok(r) => r,
        Err(p) if p.in_harness() => panic!("{}", p.msg),
        Err(p) => {
            let mut f = p.fail();
            f.msg = format!("reading {} bytes {}: {}", bytes.len(), hex(bytes), f.msg);
            return Err(f);
        }
    };
    match r {
        Ok((h, t)) => {
            ensure!(
                t.len() == h.channel_count as usize,
                "reading {}: {} tracks, but the header says {} channels", hex(bytes), t.len(), h.channel_count
            );
            c.ev("accepted", 1);
            c.fold(t.len() as u64);
        }
        Err(e) => {
            c.ev("rejected", 1);
            c.fold(hash_str(&e.to_string()));
        }
    }
    c.ev("reads", src.reads);
    Ok(())
}

fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(100).map(|b| format!("{:02x}", b)).collect();
    if b.len() > 100 { s + ".." } else { s }
}

fn small_file(r: &mut Rng) -> (FileSpec, Vec<u8>) {
    let mut s = random_spec(r, 30);
    s.channels = s.channels.min(12);
    let ints: Vec<i32> = (0..s.len * s.channels as usize).map(|_| random_int(r, s.bits)).collect();
    let b = encode(r, &s, &ints);
    (s, b)
}

fn truncations(c: &mut Case) -> R {
    let (s, b) = small_file(&mut c.rng);
    c.desc(format!("all {} truncations of {} channels, {} bits, {} frames, other chunks {:?}", b.len(), s.channels, s.bits, s.len, s.extra));
    let all = b.len() <= 600;
    for i in 0..b.len().min(600) {
        let n = if all { i } else { c.rng.below(b.len()) };
        read_any(c, &b[..n])?;
        if c.rng.chance(0.1) {
            // With sizes made to fit the file again.
            let mut d = b[..n].to_vec();
            if n >= 12 {
                let k = n as u32 - 8;
                d[4..8].copy_from_slice(&k.to_le_bytes());
                read_any(c, &d)?;
            }
        }
    }
    c.ev("files_damaged", 1);
    c.nontrivial();
    Ok(())
}

fn extreme(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 0,
        1 => u32::MAX - r.below(16) as u32,
        2 => (1 << 31) - 8 + r.below(16) as u32,
        3 => r.below(40) as u32,
        4 => 65535 + r.below(3) as u32,
        _ => r.u32() >> r.below(32),
    }
}

fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    match r.below(11) {
        0 => {
            for _ in 0..r.range(1, 4) {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
        }
        1 => {
            let i = r.below(b.len());
            b[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, r.clone().u32() as u8]);
        }
        2 => {
            // A size or a field of the header.
            let i = 4 * r.below((b.len() / 4).min(14).max(1));
            let v = extreme(r).to_le_bytes();
            if i + 4 <= b.len() {
                b[i..i + 4].copy_from_slice(&v);
            }
        }
        3 => {
            let i = r.below(b.len() + 1);
            let n = r.log_range(1, 20);
            let j = junk(r, n);
            b.splice(i..i, j);
        }
        4 => {
            let i = r.below(b.len());
            let n = r.log_range(1, 20).min(b.len() - i);
            b.drain(i..i + n);
        }
        5 => {
            // Repeat a part.
            let i = r.below(b.len());
            let n = r.log_range(1, 60).min(b.len() - i);
            let part = b[i..i + n].to_vec();
            b.splice(i..i, part);
        }
        6 => {
            // Channel count and depth.
            if let Some(p) = b.windows(4).position(|w| w == b"fmt ") {
                let o = p + 8 + *r.pick(&[0usize, 2, 12, 14]);
                if o + 2 <= b.len() {
                    let v = match r.below(3) {
                        0 => r.below(40) as u16,
                        1 => *r.pick(&[0, 1, 2, 8, 16, 24, 32, 65535, 0xfffe, 255, 256]),
                        _ => r.u32() as u16,
                    };
                    b[o..o + 2].copy_from_slice(&v.to_le_bytes());
                }
            }
        }
        7 => {
            // Length of the format or the data chunk.
            let id: &[u8] = if r.chance(0.5) { b"fmt " } else { b"data" };
            if let Some(p) = b.windows(4).position(|w| w == id) {
                if p + 8 <= b.len() {
                    let old = u32_at(b, p + 4);
                    let v = match r.below(3) {
                        0 => old.wrapping_add(r.below(9) as u32).wrapping_sub(4),
                        1 => r.below(24) as u32,
                        _ => extreme(r),
                    };
                    b[p + 4..p + 8].copy_from_slice(&v.to_le_bytes());
                }
            }
        }
        8 => {
            // Another identification.
            let ids: [&[u8; 4]; 9] = [b"LIST", b"RIFF", b"seqt", b"data", b"fmt ", b"WAVE", b"\xff\xfe\xfd\xfc", b"RIFX", b"\0\0\0\0"];
            let i = 4 * r.below((b.len() / 4).max(1));
            if i + 4 <= b.len() {
                b[i..i + 4].copy_from_slice(*r.pick(&ids));
            }
        }
        9 => {
            // One more frame byte or one less, sizes fitting.
            if let Some(p) = b.windows(4).position(|w| w == b"data") {
                if p + 8 <= b.len() {
                    let n = r.below(40);
                    b.truncate(p + 8);
                    let j = junk(r, n + n % 2);
                    b.extend_from_slice(&j);
                    b[p + 4..p + 8].copy_from_slice(&(n as u32).to_le_bytes());
                    if b.len() >= 8 {
                        let k = b.len() as u32 - 8;
                        b[4..8].copy_from_slice(&k.to_le_bytes());
                    }
                }
            }
        }
        _ => {
            // The two chunks in the other order, or one of them missing.
            let (f, d) = (b.windows(4).position(|w| w == b"fmt "), b.windows(4).position(|w| w == b"data"));
            if let (Some(f), Some(d)) = (f, d) {
                if f < d && d <= b.len() {
                    let x = b[f..d].to_vec();
                    let y = b[d..].to_vec();
                    b.truncate(f);
                    if r.chance(0.6) {
                        b.extend_from_slice(&y);
                    }
                    if r.chance(0.6) {
                        b.extend_from_slice(&x);
                    }
                    if b.len() >= 8 {
                        let k = b.len() as u32 - 8;
                        b[4..8].copy_from_slice(&k.to_le_bytes());
                    }
                }
            }
        }
    }
    if b.is_empty() {
        b.push(b'R');
    }
}

fn mutations(c: &mut Case) -> R {
    let (s, b) = small_file(&mut c.rng);
    c.desc(format!("mutations of {} channels, {} bits, {} frames, other chunks {:?}", s.channels, s.bits, s.len, s.extra));
    for _ in 0..100 {
        let mut m = b.clone();
        for _ in 0..c.rng.log_range(1, 4) {
            mutate(&mut c.rng, &mut m);
            if m.len() < 12 {
                break;
            }
        }
        read_any(c, &m)?;
        c.ev("files_damaged", 1);
    }
    c.nontrivial();
    Ok(())
}

fn hostile_chunk(r: &mut Rng, v: &mut Vec<u8>, depth: usize) {
    let ids: [&[u8; 4]; 8] = [b"LIST", b"RIFF", b"seqt", b"data", b"fmt ", b"JUNK", b"\xff\xff\xff\xff", b"data"];
    let id = *r.pick(&ids);
    let mut body = Vec::new();
    match id {
        b"LIST" | b"RIFF" | b"seqt" => {
            body.extend_from_slice(*r.pick(&[b"WAVE", b"INFO", b"\xc3\x28\xa0\xa1"]));
            if depth < 6 {
                for _ in 0..r.below(3) {
                    hostile_chunk(r, &mut body, depth + 1);
                }
            }
        }
        b"fmt " => {
            let (ch, bits) = (*r.pick(&[0u16, 1, 2, 3, 255, 65535]), *r.pick(&[0u16, 1, 7, 8, 9, 16, 24, 32, 65535]));
            body = fmt_body(ch, r.u32(), bits);
            let n = *r.pick(&[16usize, 16, 16, 18, 40, 15, 0, 3]);
            body.resize(n, 0);
        }
        _ => {
            let n = r.log_range(0, 50);
            body = junk(r, n);
        }
    }
    v.extend_from_slice(id);
    let len = if r.chance(0.85) { body.len() as u32 } else { extreme(r) };
    v.extend_from_slice(&len.to_le_bytes());
    v.extend_from_slice(&body);
    if body.len() % 2 == 1 && r.chance(0.9) {
        v.push(0);
    }
}

fn hostile(c: &mut Case) -> R {
    c.desc(format!("hostile chunk structures {}", c.idx));
    for _ in 0..100 {
        let mut v = b"RIFF\0\0\0\0WAVE".to_vec();
        for _ in 0..c.rng.below(6) {
            hostile_chunk(&mut c.rng, &mut v, 0);
        }
        let k = if c.rng.chance(0.8) { v.len() as u32 - 8 } else { extreme(&mut c.rng) };
        v[4..8].copy_from_slice(&k.to_le_bytes());
        read_any(c, &v)?;
        c.ev("files_damaged", 1);
    }
    for _ in 0..20 {
        let n = c.rng.log_range(0, 200);
        let mut v = junk(&mut c.rng, n);
        if n >= 12 && c.rng.chance(0.5) {
            v[0..4].copy_from_slice(b"RIFF");
            v[8..12].copy_from_slice(b"WAVE");
        }
        read_any(c, &v)?;
        c.ev("files_damaged", 1);
    }
    c.nontrivial();
    Ok(())
}

/// Structures that ask for deep recursion or endless work.
fn greedy(c: &mut Case) -> R {
    let kind = c.idx % 6;
    let id: &[u8; 4] = *c.rng.pick(&[b"LIST", b"RIFF", b"seqt"]);
    let n = c.rng.log_range(1000, c.t(100_000, 400_000));
    let mut v = Vec::new();
    match kind {
        0 => {
            // Nested lists.
            for _ in 0..n {
                v.extend_from_slice(if v.is_empty() { b"RIFF" } else { id });
                v.extend_from_slice(&0xffff_fff0u32.to_le_bytes());
                v.extend_from_slice(b"WAVE");
            }
        }
        1 => {
            // Very many empty chunks.
            v.extend_from_slice(b"RIFF\xff\xff\xff\xffWAVE");
            for _ in 0..n {
                chunk(&mut v, b"JUNK", &[]);
            }
        }
        2 => {
            // No channels, but data.
            v.extend_from_slice(b"RIFF\0\0\0\0WAVE");
            let bits = *c.rng.pick(&DEPTHS);
            chunk(&mut v, b"fmt ", &fmt_body(0, 48000, bits));
            chunk(&mut v, b"data", &[7; 48]);
            let k = v.len() as u32 - 8;
            v[4..8].copy_from_slice(&k.to_le_bytes());
        }
        3 | 4 => {
            // As many channels as can be, each with hardly any data.
            v.extend_from_slice(b"RIFF\0\0\0\0WAVE");
            let bits = *c.rng.pick(&DEPTHS);
            let max = 65535 / (bits as usize / 8);
            let ch = match c.rng.below(4) {
                0 => max,
                1 => 256 * c.rng.range(1, max / 256),
                2 => c.rng.range(1, 65535),
                _ => 1 << c.rng.below(16),
            };
            chunk(&mut v, b"fmt ", &fmt_body(ch as u16, 48000, bits));
            let frame = (ch * bits as usize / 8) & 0xffff;
            let n = frame * c.rng.below(4);
            chunk(&mut v, b"data", &vec![7; n]);
            let k = v.len() as u32 - 8;
            v[4..8].copy_from_slice(&k.to_le_bytes());
        }
        _ => {
            // Gigabytes announced, little there.
            v.extend_from_slice(b"RIFF\xff\xff\xff\xffWAVE");
            let bits = *c.rng.pick(&DEPTHS);
            let ch = *c.rng.pick(&[1u16, 2, 65535]);
            chunk(&mut v, b"fmt ", &fmt_body(ch, 48000, bits));
            v.extend_from_slice(if c.rng.chance(0.5) { b"data" } else { b"JUNK" });
            let k = u32::MAX - c.rng.below(3) as u32;
            v.extend_from_slice(&k.to_le_bytes());
            v.extend_from_slice(&[1; 1000]);
        }
    }
    c.desc(format!("{} of {} bytes", ["nested lists", "many chunks", "data without channels", "many channels", "many channels", "announced gigabytes"][kind as usize], v.len()));
    read_any(c, &v)?;
    c.ev("greedy", 1);
    c.nontrivial();
    Ok(())
}

fn failing_source(c: &mut Case) -> R {
    let (s, b) = small_file(&mut c.rng);
    c.desc(format!("source of {} channels, {} bits, {} frames, other chunks {:?} failing at each of {} offsets", s.channels, s.bits, s.len, s.extra, b.len()));
    let all = b.len() <= 600;
    for i in 0..b.len().min(600) {
        let at = if all { i } else { c.rng.below(b.len()) };
        let f = Fault::random(&mut c.rng);
        let how = split(&mut c.rng);
        let mut src = Source::new(&b, how, c.rng.u64());
        src.fault = Some((at, f));
        if c.rng.chance(0.2) {
            src.interrupts = 0.2;
        }
        let what = format!("source failing with {:?} after {} of {} bytes, giving {:?}", f, at, b.len(), how);
        let r = match guard(|| read_wav(&mut src)) {
            Ok(r) => r,
            Err(p) if p.in_harness() => panic!("{}", p.msg),
            Err(p) => {
                let mut g = p.fail();
                g.msg = format!("{}: {}", what, g.msg);
                return Err(g);
            }
        };
        match r {
            // The rest of the file may have been left unread.
            Ok(_) if !src.raised => c.ev("complete_before_failure", 1),
            Ok(_) => return Err(Fail::new(format!("{}: accepted", what))),
            Err(e) => {
                let interrupted = e.kind() == ErrorKind::Interrupted && src.interrupts > 0.0;
                ensure!(interrupted || f.is(&e), "{}: error {:?} returned", what, e);
            }
        }
        c.ev("source_failures", 1);
        c.fold(src.reads);
    }
    c.nontrivial();
    Ok(())
}

pub const C04: Check = Check {
    id: "C04",
    rule: "valid files of all formats truncated at every byte; 100 random mutations each of flipped bits, extreme sizes, channel counts and depths, inserted, removed, repeated and reordered parts; structures of random chunks with hostile sizes; nested lists, very many chunks, data without channels, any number of channels up to 65535, announced gigabytes; random bytes; sources that fail with any error at every offset, split and interrupt their reads. Panics, crashes, endless computations and gigabytes of memory are observed; accepted files must have as many tracks as the header says; the source's own error must come back. Non-trivial: always; distinct by the outcomes of the reads.",
    assumptions: &["an interrupted read may be repeated or reported", "MonoWav::from_source has no way to return an error and is only given valid sources"],
    exhaustive: false,
    fams: &[
        Fam { name: "greedy", quick: 2400, thorough: 30000, run: greedy },
        Fam { name: "truncations", quick: 16000, thorough: 500000, run: truncations },
        Fam { name: "mutations", quick: 40000, thorough: 1500000, run: mutations },
        Fam { name: "hostile", quick: 33000, thorough: 1200000, run: hostile },
        Fam { name: "failing_source", quick: 10000, thorough: 380000, run: failing_source },
    ],
};
