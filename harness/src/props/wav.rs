//! C10-C13: WAV files.

use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use bae_rs::utils::{read_wav, write_wav};
use std::io::{self, ErrorKind, Read, Write};

// ------------------------------------------------- independent encoder/decoder

/// A PCM WAV file.
#[derive(Clone, Debug, PartialEq)]
pub struct WavSpec {
    pub channels: u16,
    pub rate: u32,
    pub bits: u16,
    /// Further bytes of the format chunk.
    pub fmt_extra: Vec<u8>,
    /// Interleaved codes; only whole frames.
    pub codes: Vec<i32>,
    pub trailing: Vec<([u8; 4], Vec<u8>)>,
}

fn chunk(out: &mut Vec<u8>, id: &[u8], data: &[u8]) {
    out.extend_from_slice(id);
    out.extend_from_slice(&(data.len() as u32).to_le_bytes());
    out.extend_from_slice(data);
    if data.len() % 2 == 1 {
        out.push(0);
    }
}

pub fn encode(w: &WavSpec) -> Vec<u8> {
    let bytes = w.bits / 8;
    let mut fmt = Vec::new();
    fmt.extend_from_slice(&1u16.to_le_bytes());
    fmt.extend_from_slice(&w.channels.to_le_bytes());
    fmt.extend_from_slice(&w.rate.to_le_bytes());
    fmt.extend_from_slice(&((w.channels as u32 * bytes as u32).wrapping_mul(w.rate)).to_le_bytes());
    fmt.extend_from_slice(&(w.channels.wrapping_mul(bytes)).to_le_bytes());
    fmt.extend_from_slice(&w.bits.to_le_bytes());
    fmt.extend_from_slice(&w.fmt_extra);
    let mut data = Vec::with_capacity(w.codes.len() * bytes as usize);
    for c in &w.codes {
        match w.bits {
            8 => data.push(*c as u8),
            16 => data.extend_from_slice(&(*c as i16).to_le_bytes()),
            _ => data.extend_from_slice(&c.to_le_bytes()[..3]),
        }
    }
    let mut body = b"WAVE".to_vec();
    chunk(&mut body, b"fmt ", &fmt);
    chunk(&mut body, b"data", &data);
    for (id, d) in &w.trailing {
        chunk(&mut body, id, d);
    }
    let mut out = b"RIFF".to_vec();
    out.extend_from_slice(&(body.len() as u32).to_le_bytes());
    out.extend(body);
    out
}

pub fn value(bits: u16, code: i32) -> f64 {
    match bits {
        8 => (code as f64 - 128.0) / 128.0,
        16 => code as f64 / 32767.0,
        _ => code as f64 / 8388607.0,
    }
}

impl WavSpec {
    pub fn channel(&self, c: usize) -> Vec<f32> {
        self.codes.iter().skip(c).step_by(self.channels as usize).map(|&k| value(self.bits, k) as f32).collect()
    }
}

pub fn code(s: &mut Src, bits: u16) -> i32 {
    let (lo, hi) = match bits {
        8 => (0, 255),
        16 => (-32768, 32767),
        _ => (-8388608, 8388607),
    };
    match s.below(4) {
        0 => s.pick(&[lo, hi, 0, 1, -1, lo + 1, hi - 1, 128, 127, -128, -256, 256, 255]).clamp(lo, hi),
        _ => s.int(lo as i64, hi as i64) as i32,
    }
}

const IDS: [[u8; 4]; 6] = [*b"LIST", *b"fact", *b"cue ", *b"id3 ", *b"junk", *b"smpl"];

pub fn gen_wav(s: &mut Src, max_frames: usize) -> WavSpec {
    let bits = s.pick(&[16, 8, 24]);
    let channels = match s.below(8) {
        0..=2 => 1,
        3..=4 => 2,
        5..=6 => s.int(3, 8) as u16,
        _ => s.int(9, 40) as u16,
    };
    let frames = s.size(max_frames);
    let raw = frames * channels as usize <= 48;
    let codes = if raw {
        (0..frames * channels as usize).map(|_| code(s, bits)).collect()
    } else {
        let mut r = Rng::new(s.below(1 << 20));
        (0..frames * channels as usize)
            .map(|_| {
                let v = r.next() >> 16;
                match bits {
                    8 => (v & 0xff) as i32,
                    16 => (v & 0xffff) as u16 as i16 as i32,
                    _ => (((v & 0xffffff) as i32) << 8) >> 8,
                }
            })
            .collect()
    };
    let rate = match s.below(3) {
        0 => s.pick(&[48000, 44100, 8000, 22050, 96000, 192000, 1, u32::MAX]),
        1 => s.int(1, 400_000) as u32,
        _ => s.below(1 << 32) as u32,
    };
    let fmt_extra = match s.below(4) {
        0..=1 => vec![],
        2 => vec![0, 0],
        _ => (0..s.us(1, 24)).map(|_| s.below(256) as u8).collect(),
    };
    let trailing = s.list(0, 3, |s| {
        let id = s.pick(&IDS);
        let data = if &id == b"LIST" {
            let mut d = b"INFO".to_vec();
            let t: Vec<u8> = (0..s.us(0, 9)).map(|_| s.below(256) as u8).collect();
            chunk(&mut d, b"INAM", &t);
            d
        } else {
            (0..s.us(0, 40)).map(|_| s.below(256) as u8).collect()
        };
        (id, data)
    });
    // half of the files have nothing after the data
    let trailing = if s.chance(1, 2) { trailing } else { vec![] };
    WavSpec { channels, rate, bits, fmt_extra, codes, trailing }
}

struct Decoded {
    channels: u16,
    bits: u16,
    codes: Vec<i32>,
}

/// Strict decoder for what write_wav produces.
fn decode(b: &[u8]) -> Result<Decoded, String> {
    let u16at = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
    let u32at = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    ensure!(b.len() >= 44, "only {} bytes", b.len());
    ensure!(&b[0..4] == b"RIFF" && &b[8..12] == b"WAVE", "not a RIFF/WAVE file");
    ensure!(u32at(4) as usize + 8 == b.len(), "RIFF size {} in a file of {} bytes", u32at(4), b.len());
    ensure!(&b[12..16] == b"fmt " && u32at(16) == 16, "no 16-byte format chunk");
    ensure!(u16at(20) == 1, "format {}", u16at(20));
    let channels = u16at(22);
    let rate = u32at(24);
    let bits = u16at(34);
    ensure!(rate == 48000, "rate {rate}");
    let align = channels as u32 * (bits as u32 / 8);
    ensure!(u16at(32) as u32 == align, "frame size {} for {channels} channels of {bits} bits", u16at(32));
    ensure!(u32at(28) == align * 48000, "byte rate {} for {channels} channels of {bits} bits", u32at(28));
    ensure!(&b[36..40] == b"data", "no data chunk");
    let n = u32at(40) as usize;
    ensure!(44 + n + n % 2 == b.len(), "data size {n} in a file of {} bytes", b.len());
    let d = &b[44..44 + n];
    ensure!(align > 0 && n % align as usize == 0, "data size {n} for frames of {align} bytes");
    let codes = match bits {
        8 => d.iter().map(|&x| x as i32).collect(),
        16 => d.chunks(2).map(|x| i16::from_le_bytes([x[0], x[1]]) as i32).collect(),
        24 => d.chunks(3).map(|x| i32::from_le_bytes([0, x[0], x[1], x[2]]) >> 8).collect(),
        _ => return Err(format!("bit depth {bits}")),
    };
    Ok(Decoded { channels, bits, codes })
}

// ------------------------------------------------------------ readers, writers

#[derive(Clone, Debug, PartialEq)]
pub enum Chunking {
    All,
    Each(usize),
    /// Sizes used in turn; 0 stands for an interruption.
    Cycle(Vec<usize>),
}

impl Chunking {
    pub fn gen(s: &mut Src) -> Chunking {
        match s.below(4) {
            0 => Chunking::All,
            1 => Chunking::Each(s.us(1, 9)),
            _ => {
                let mut v = s.list(1, 8, |s| if s.chance(1, 4) { 0 } else { 1 + s.size(60) });
                v.push(1 + s.size(9));
                Chunking::Cycle(v)
            }
        }
    }
}

pub struct ChunkedReader<'a> {
    data: &'a [u8],
    pos: usize,
    how: Chunking,
    turn: usize,
    /// Fails at this offset.
    fail_at: Option<(usize, ErrorKind)>,
}

impl<'a> ChunkedReader<'a> {
    pub fn new(data: &'a [u8], how: Chunking) -> Self {
        ChunkedReader { data, pos: 0, how, turn: 0, fail_at: None }
    }
}

impl Read for ChunkedReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = match &self.how {
            Chunking::All => usize::MAX,
            Chunking::Each(n) => *n,
            Chunking::Cycle(v) => {
                let n = v[self.turn % v.len()];
                self.turn += 1;
                if n == 0 {
                    return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
                }
                n
            }
        };
        if let Some((at, k)) = self.fail_at {
            if self.pos >= at {
                return Err(io::Error::new(k, "injected"));
            }
            n = n.min(at - self.pos);
        }
        let n = n.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Debug)]
enum Fault {
    None,
    Error(usize, ErrorKind),
    Zero(usize),
}

struct FaultWriter {
    got: Vec<u8>,
    how: Chunking,
    turn: usize,
    fault: Fault,
    calls: usize,
    hit: bool,
    flush_fails: bool,
}

impl Write for FaultWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = match &self.how {
            Chunking::All => buf.len(),
            Chunking::Each(n) => *n,
            Chunking::Cycle(v) => {
                let n = v[self.turn % v.len()];
                self.turn += 1;
                if n == 0 {
                    return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
                }
                n
            }
        };
        match &self.fault {
            Fault::None => {}
            Fault::Error(at, k) => {
                if self.got.len() >= *at {
                    self.hit = true;
                    return Err(io::Error::new(*k, "injected"));
                }
                n = n.min(at - self.got.len());
            }
            Fault::Zero(at) => {
                if self.got.len() >= *at {
                    self.hit = true;
                    return Ok(0);
                }
                n = n.min(at - self.got.len());
            }
        }
        let n = n.min(buf.len());
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_fails {
            Err(io::Error::new(ErrorKind::Other, "flush"))
        } else {
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------- C10

#[derive(Debug, Clone)]
struct Tracks {
    bits: u16,
    clip: bool,
    tracks: Vec<Signal>,
    len: usize,
    seed: u64,
}

fn loud(s: &mut Src) -> f32 {
    match s.below(4) {
        0 => s.pick(&[1.0, -1.0, 0.0, 1.0000001, -1.0000001, 2.0, -2.0, 0.99999994, -0.99999994, 1e30, -1e30, -0.0]),
        1 => s.uni(-3.0, 3.0) as f32,
        _ => s.uni(-1.0, 1.0) as f32,
    }
}

fn gen_tracks(s: &mut Src) -> Tracks {
    let bits = s.pick(&[16, 8, 24]);
    let clip = s.chance(1, 2);
    let n = match s.below(6) {
        0..=1 => 1,
        2..=3 => 2,
        4 => s.us(3, 8),
        _ => s.us(9, 64),
    };
    let len = s.size(if n > 8 { 40 } else { 3000 });
    let tracks = (0..n)
        .map(|_| match s.below(3) {
            0 if len <= 24 => vec![Seg::Raw((0..len).map(|_| loud(s)).collect())],
            1 => vec![seg(s, len.max(1)), seg(s, len.max(1))],
            _ => vec![Seg::Noise(s.below(1 << 16), s.pick(&[1.0, 1.5, 0.01, 100.0]), len)],
        })
        .collect();
    Tracks { bits, clip, tracks, len, seed: s.below(1 << 16) }
}

fn render_tracks(c: &Tracks) -> Vec<Vec<f32>> {
    c.tracks
        .iter()
        .map(|t| {
            let mut v = render(t);
            v.resize(c.len, 0.25);
            if !c.clip {
                // values beyond full scale are only defined with clipping
                v.iter_mut().for_each(|x| *x = x.max(-1.0).min(1.0));
            }
            v
        })
        .collect()
}

fn step(bits: u16) -> f64 {
    match bits {
        8 => 1.0 / 128.0,
        16 => 1.0 / 32767.0,
        _ => 1.0 / 8388607.0,
    }
}

/// Largest deviation after quantisation: one step (full scale of 8 bit is only
/// 127/128), plus single-precision rounding.
fn quant_tol(bits: u16) -> f64 {
    step(bits) * 1.001 + 1.2e-7
}

fn run_tracks(c: &Tracks, obs: &mut Obs) -> Res {
    let tracks = render_tracks(c);
    let mut w = Vec::new();
    if let Err(e) = write_wav(tracks.clone(), c.bits, &mut w, c.clip) {
        return Err(format!("writing failed: {e}"));
    }
    let d = decode(&w)?;
    ensure!(d.channels as usize == tracks.len(), "{} channels written for {}", d.channels, tracks.len());
    ensure!(d.bits == c.bits, "{} bits written for {}", d.bits, c.bits);
    ensure!(d.codes.len() == tracks.len() * c.len, "{} codes for {} samples in {} channels", d.codes.len(), c.len, tracks.len());
    let tol = quant_tol(c.bits);
    for (i, k) in d.codes.iter().enumerate() {
        let (ch, n) = (i % tracks.len(), i / tracks.len());
        let want = (tracks[ch][n] as f64).max(-1.0).min(1.0);
        let got = value(c.bits, *k);
        ensure!((got - want).abs() <= tol, "channel {ch} sample {n}: {:?} stored as code {k}", tracks[ch][n]);
    }
    let (h, back) = match read_wav(&mut &w[..]) {
        Ok(x) => x,
        Err(e) => return Err(format!("reading back failed: {e}")),
    };
    ensure!(
        h.audio_format == 1 && h.channel_count as usize == tracks.len() && h.sampling_rate == 48000 && h.bits_per_sample == c.bits,
        "read back header {h:?}"
    );
    ensure!(
        h.bytes_per_sample as usize == tracks.len() * c.bits as usize / 8
            && h.bytes_per_second as usize == 48000 * h.bytes_per_sample as usize,
        "read back header {h:?}"
    );
    ensure!(back.len() == tracks.len(), "{} channels read back of {}", back.len(), tracks.len());
    for (ch, (a, b)) in tracks.iter().zip(&back).enumerate() {
        ensure!(a.len() == b.len(), "channel {ch}: {} samples read back of {}", b.len(), a.len());
        for n in 0..a.len() {
            let want = (a[n] as f64).max(-1.0).min(1.0);
            ensure!(
                (b[n] as f64 - want).abs() <= tol,
                "channel {ch} sample {n}: wrote {:?}, read back {:?}", a[n], b[n]
            );
            if c.bits != 8 {
                // full scale and silence are exact
                ensure!(
                    (want.abs() != 1.0 && want != 0.0) || (b[n] as f64 - want).abs() < 1e-7,
                    "channel {ch} sample {n}: wrote {:?}, read back {:?}", a[n], b[n]
                );
            }
        }
        obs.compared += a.len() as u64;
    }
    // what was read back is on the grid: writing it again gives the same file
    let mut w2 = Vec::new();
    if let Err(e) = write_wav(back, c.bits, &mut w2, c.clip) {
        return Err(format!("writing again failed: {e}"));
    }
    ensure!(w == w2, "writing what was read back gives a different file");
    // clipping leaves what is within the range alone
    if !c.clip {
        let mut w3 = Vec::new();
        let _ = write_wav(tracks.clone(), c.bits, &mut w3, true);
        ensure!(w == w3, "clipping changed a track within [-1, 1]");
    }
    obs.label_if(c.len == 0, "no samples");
    obs.label_if(c.len % 2 == 1, "odd length");
    obs.label_if(tracks.len() > 1, "several channels");
    obs.label_if(tracks.iter().flatten().any(|x| x.abs() > 1.0), "beyond full scale");
    obs.label(match c.bits {
        8 => "8 bit",
        16 => "16 bit",
        _ => "24 bit",
    });
    obs.nontrivial = c.len > 0;
    Ok(())
}

/// Long files.
fn gen_huge(s: &mut Src) -> Tracks {
    let len = s.us(5_600_000, 6_500_000);
    Tracks { bits: 24, ..big(s, 1, len) }
}

fn gen_big(s: &mut Src) -> Tracks {
    let n = s.us(1, 3);
    let len = s.us(20_000, 700_000);
    big(s, n, len)
}

/// Long silence at the start, the end or within the tracks.
fn gen_rests(s: &mut Src) -> Tracks {
    let mut c = gen_tracks(s);
    let n = s.us(1, 2);
    c.tracks = (0..n).map(|_| rests(s, 3_400_000 / n)).collect();
    c.len = c.tracks[0].iter().map(Seg::len).sum();
    for t in &mut c.tracks {
        let own: usize = t.iter().map(Seg::len).sum();
        t.push(Seg::Const(0.0, c.len.saturating_sub(own)));
    }
    c
}

fn big(s: &mut Src, n: usize, len: usize) -> Tracks {
    let mut c = gen_tracks(s);
    c.tracks = (0..n)
        .map(|_| {
            let a = s.pick(&[1.0, 1.5, 0.01]);
            if s.chance(1, 2) {
                return vec![Seg::Noise(s.below(1 << 16), a, len)];
            }
            // the level changes somewhere
            let k = s.us(1, len - 1);
            let b = s.pick(&[1.5, 0.5, 1.0, 3.0, 0.01]);
            let rest = if s.chance(1, 3) { Seg::Impulse(-b, len - k) } else { Seg::Noise(s.below(1 << 16), b, len - k) };
            vec![Seg::Noise(s.below(1 << 16), a, k), rest]
        })
        .collect();
    c.len = len;
    c
}

/// Files with extreme channel counts.
fn gen_wide(s: &mut Src) -> Tracks {
    let bits = s.pick(&[8u16, 16, 24]);
    let most = 65535 / (bits as usize / 8);
    let n = match s.below(3) {
        0 => most,
        1 => s.us(most - 3, most),
        _ => s.us(256, most),
    };
    Tracks { bits, clip: s.chance(1, 2), tracks: vec![vec![]; n], len: s.us(0, 3), seed: s.below(1 << 16) }
}

fn run_wide(c: &Tracks, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed);
    let tracks: Vec<Signal> =
        c.tracks.iter().map(|_| vec![Seg::Raw((0..c.len).map(|_| (r.unit() * 2.0 - 1.0) as f32).collect())]).collect();
    run_tracks(&Tracks { tracks, ..c.clone() }, obs)
}

// ------------------------------------------------------------------------- C11

#[derive(Debug)]
struct Sink {
    tracks: Tracks,
    how: Chunking,
    fault: u64,
    at: f64,
    exact: u64,
    kind: u64,
    flush_fails: bool,
}

fn gen_sink(s: &mut Src) -> Sink {
    let mut tracks = gen_tracks(s);
    tracks.len = tracks.len.min(200);
    Sink { tracks, how: Chunking::gen(s), fault: s.below(3), at: s.unit(), exact: s.below(4), kind: s.below(KINDS.len() as u64), flush_fails: s.chance(1, 8) }
}

const KINDS: [ErrorKind; 12] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidInput,
    ErrorKind::PermissionDenied,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionReset,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
];

fn run_sink(c: &Sink, obs: &mut Obs) -> Res {
    let tracks = render_tracks(&c.tracks);
    let t = &c.tracks;
    let mut whole = Vec::new();
    write_wav(tracks.clone(), t.bits, &mut whole, t.clip).map_err(|e| format!("writing to a vector failed: {e}"))?;
    // inside the file, at its very end, or beyond it
    let at = match c.exact {
        0 => (whole.len() as f64 * c.at) as usize,
        1 => whole.len() - 1 - (c.at * 3.0) as usize,
        2 => (c.at * 48.0) as usize,
        _ => whole.len() + (c.at * 4.0) as usize,
    };
    let fault = match c.fault {
        0 => Fault::None,
        1 => Fault::Error(at, KINDS[c.kind as usize]),
        _ => Fault::Zero(at),
    };
    let fails = c.fault > 0 && at < whole.len();
    let mut w = FaultWriter { got: vec![], how: c.how.clone(), turn: 0, fault, calls: 0, hit: false, flush_fails: c.flush_fails };
    let r = write_wav(tracks, t.bits, &mut w, t.clip);
    obs.compared += 1;
    match &r {
        Ok(()) => {
            ensure!(!fails, "success reported although the sink stopped at byte {at} of {}", whole.len());
            ensure!(
                w.got == whole,
                "success reported with {} bytes delivered of {}{}",
                w.got.len(),
                whole.len(),
                if w.got.len() == whole.len() { " (different ones)" } else { "" }
            );
        }
        Err(e) => {
            ensure!(fails || c.flush_fails || w.hit, "error {e} from a sink that took everything");
            ensure!(
                w.got.len() <= whole.len() && w.got[..] == whole[..w.got.len()],
                "after an error the sink does not hold a prefix of the file"
            );
        }
    }
    obs.label_if(fails, "sink fails within the file");
    obs.label_if(matches!(c.how, Chunking::Cycle(ref v) if v.contains(&0)), "interrupted");
    obs.label_if(w.calls > 1, "several writes");
    obs.nontrivial = fails || w.calls > 1;
    Ok(())
}

#[derive(Debug)]
struct Invalid {
    kind: u64,
    lens: Vec<usize>,
    bits: u16,
    clip: bool,
    wide: usize,
}

fn gen_invalid(s: &mut Src) -> Invalid {
    let bits = match s.below(3) {
        0 => s.pick(&[0u16, 1, 7, 9, 12, 15, 17, 20, 23, 25, 32, 64, 65535, 31, 40]),
        _ => {
            let b = s.below(65536) as u16;
            if [8, 16, 24].contains(&b) {
                32
            } else {
                b
            }
        }
    };
    let kind = s.below(4);
    let ok_bits = s.pick(&[8u16, 16, 24]);
    let mut lens: Vec<usize> = (0..s.us(2, 6)).map(|_| s.us(0, 20)).collect();
    if kind == 1 && lens.iter().all(|l| *l == lens[0]) {
        let i = s.us(0, lens.len() - 1);
        lens[i] += 1;
    }
    if kind == 2 {
        let n = lens[0];
        lens.iter_mut().for_each(|l| *l = n);
    }
    let most = 65535 / (ok_bits as usize / 8);
    Invalid { kind, lens, bits: if kind == 2 { bits } else { ok_bits }, clip: s.chance(1, 2), wide: most + 1 + s.pick(&[0usize, 1, 2, 100, 21846, 65536, 43691]) }
}

fn run_invalid(c: &Invalid, obs: &mut Obs) -> Res {
    let tracks: Vec<Vec<f32>> = match c.kind {
        0 => vec![],
        3 => vec![vec![0.5]; c.wide],
        _ => c.lens.iter().map(|n| vec![0.5; *n]).collect(),
    };
    let mut w = FaultWriter { got: vec![], how: Chunking::All, turn: 0, fault: Fault::None, calls: 0, hit: false, flush_fails: false };
    let n = tracks.len();
    let r = write_wav(tracks, c.bits, &mut w, c.clip);
    obs.compared += 1;
    obs.nontrivial = true;
    obs.label(["no channels", "mismatching lengths", "unsupported bit depth", "too many channels"][c.kind as usize]);
    ensure!(r.is_err(), "accepted {n} channels ({:?}) at {} bits", c.lens, c.bits);
    ensure!(w.got.is_empty(), "wrote {} bytes before refusing", w.got.len());
    Ok(())
}

// ------------------------------------------------------------------------- C12

#[derive(Debug)]
struct Decode {
    wav: WavSpec,
    how: Chunking,
    more: Vec<u8>,
}

fn gen_decode(s: &mut Src) -> Decode {
    Decode { wav: gen_wav(s, 400), how: Chunking::gen(s), more: (0..s.size(30)).map(|_| s.below(256) as u8).collect() }
}

fn gen_decode_huge(s: &mut Src) -> Decode {
    let n = s.us(17_000_000, 20_000_000);
    decode_big(s, n)
}

fn gen_decode_big(s: &mut Src) -> Decode {
    let n = s.us(20_000, 1_500_000);
    decode_big(s, n)
}

fn decode_big(s: &mut Src, n: usize) -> Decode {
    let mut wav = gen_wav(s, 1);
    wav.channels = s.pick(&[1u16, 2, 3, 255, 256, 257, 300]);
    let frames = n / wav.channels as usize;
    let mut r = Rng::new(s.below(1 << 20));
    let bits = wav.bits;
    wav.codes = (0..frames * wav.channels as usize)
        .map(|_| {
            let v = r.next() >> 16;
            match bits {
                8 => (v & 0xff) as i32,
                16 => (v & 0xffff) as u16 as i16 as i32,
                _ => (((v & 0xffffff) as i32) << 8) >> 8,
            }
        })
        .collect();
    let how = if s.chance(1, 2) { Chunking::All } else { Chunking::Cycle(vec![s.us(1, 70_000), s.us(1, 5000), 1]) };
    Decode { wav, how, more: vec![] }
}

/// Long silence, or long stretches of one code, in all or some channels.
pub fn resting_codes(s: &mut Src, w: &mut WavSpec, most: usize) {
    w.channels = s.pick(&[1u16, 1, 2, 2, 3, 6]);
    let ch = w.channels as usize;
    let tracks: Vec<Vec<f32>> = (0..ch)
        .map(|_| if s.chance(1, 6) { vec![] } else { render(&rests(s, most / ch)) })
        .collect();
    let len = tracks.iter().map(Vec::len).max().unwrap_or(0);
    let mut codes = Vec::with_capacity(len * ch);
    for i in 0..len {
        for t in &tracks {
            let x = (t.get(i).copied().unwrap_or(0.0) as f64).max(-1.0).min(1.0);
            codes.push(match w.bits {
                8 => (x * 127.0 + 128.0).round() as i32,
                16 => (x * 32767.0).round() as i32,
                _ => (x * 8388607.0).round() as i32,
            });
        }
    }
    w.codes = codes;
}

fn gen_decode_rests(s: &mut Src) -> Decode {
    let mut wav = gen_wav(s, 1);
    resting_codes(s, &mut wav, 3_400_000);
    let how = if s.chance(1, 2) { Chunking::All } else { Chunking::Cycle(vec![s.us(1, 70_000), s.us(1, 5000), 1]) };
    Decode { wav, how, more: vec![] }
}

fn run_decode(c: &Decode, obs: &mut Obs) -> Res {
    let w = &c.wav;
    let mut bytes = encode(w);
    bytes.extend_from_slice(&c.more);
    let mut r = ChunkedReader::new(&bytes, c.how.clone());
    let (h, t) = match read_wav(&mut r) {
        Ok(x) => x,
        Err(e) => return Err(format!("reading a well-formed file failed: {e}")),
    };
    ensure!(
        h.audio_format == 1 && h.channel_count == w.channels && h.sampling_rate == w.rate && h.bits_per_sample == w.bits,
        "header read as {h:?}"
    );
    ensure!(
        h.bytes_per_sample == w.channels.wrapping_mul(w.bits / 8)
            && h.bytes_per_second == (w.channels as u32 * (w.bits / 8) as u32).wrapping_mul(w.rate),
        "header read as {h:?}"
    );
    ensure!(t.len() == w.channels as usize, "{} tracks for {} channels", t.len(), w.channels);
    for (ch, tr) in t.iter().enumerate() {
        let want = w.channel(ch);
        ensure!(tr.len() == want.len(), "channel {ch}: {} samples of {}", tr.len(), want.len());
        for n in 0..want.len() {
            let d = (tr[n] - want[n]).abs();
            ensure!(
                d <= 1.2e-7 * want[n].abs(),
                "channel {ch} sample {n}: code {} read as {:?}, expected {:?}",
                w.codes[n * w.channels as usize + ch],
                tr[n],
                want[n]
            );
        }
        obs.compared += want.len() as u64;
    }
    obs.label_if(w.channels > 1, "several channels");
    obs.label_if(!w.trailing.is_empty(), "chunks after the data");
    obs.label_if(!w.fmt_extra.is_empty(), "long format chunk");
    obs.label_if(w.codes.iter().any(|c| *c < 0), "negative codes");
    obs.label_if(matches!(c.how, Chunking::Cycle(ref v) if v.contains(&0)), "interrupted reads");
    obs.label(match w.bits {
        8 => "8 bit",
        16 => "16 bit",
        _ => "24 bit",
    });
    obs.nontrivial = !w.codes.is_empty();
    Ok(())
}

/// Every code of 8 and 16 bits, and a stretch of those of 24 bits, in a file.
#[derive(Debug)]
struct Stretch {
    bits: u16,
    channels: u16,
    from: i32,
}

fn gen_stretch(s: &mut Src) -> Stretch {
    let bits = s.pick(&[8u16, 16, 24]);
    let from = match bits {
        8 => 0,
        16 => -32768,
        _ => -8388608 + 65536 * s.int(0, 255) as i32,
    };
    Stretch { bits, channels: s.pick(&[1u16, 2, 4, 16]), from }
}

fn run_stretch(c: &Stretch, obs: &mut Obs) -> Res {
    let n = if c.bits == 8 { 256 } else { 65536 };
    let w = WavSpec {
        channels: c.channels,
        rate: 48000,
        bits: c.bits,
        fmt_extra: vec![],
        codes: (0..n).map(|i| c.from + i).collect(),
        trailing: vec![],
    };
    run_decode(&Decode { wav: w, how: Chunking::All, more: vec![] }, obs)
}

// ------------------------------------------------------------------------- C13

#[derive(Debug)]
enum Bad {
    /// Mutations of a valid file.
    Mutate(WavSpec, Vec<Mutation>),
    /// Chunks in any number and order.
    Chunks(Vec<u8>, [u8; 4], [u8; 4], Vec<Piece>),
    Bytes(Vec<u8>),
}

#[derive(Debug, Clone)]
enum Mutation {
    Set(f64, u8),
    Flip(f64, u8),
    Truncate(f64),
    Insert(f64, Vec<u8>),
    Delete(f64, usize),
    /// A 16/32-bit field of the first 44 bytes.
    Field16(usize, u16),
    Field32(usize, u32),
    Append(Vec<u8>),
}

#[derive(Debug, Clone)]
struct Piece {
    id: [u8; 4],
    data: Vec<u8>,
    /// Declared minus actual length.
    lie: i64,
}

#[derive(Debug)]
struct Hostile {
    what: Bad,
    how: Chunking,
    fail: Option<(f64, u64)>,
}

fn fmt_bytes(s: &mut Src) -> Vec<u8> {
    let mut f = Vec::new();
    let fm = if s.chance(1, 8) { s.pick(&[0u16, 2, 3, 6, 7, 0xfffe, 257]) } else { 1 };
    let cc = match s.below(6) {
        0 => 0u16,
        1 => s.below(65536) as u16,
        2 => s.int(3, 12) as u16,
        _ => s.int(1, 2) as u16,
    };
    let bits = if s.chance(1, 6) { s.pick(&[0u16, 1, 4, 12, 15, 20, 32, 64, 264, 65535]) } else { s.pick(&[8u16, 16, 24]) };
    f.extend_from_slice(&fm.to_le_bytes());
    f.extend_from_slice(&cc.to_le_bytes());
    f.extend_from_slice(&(s.below(1 << 32) as u32).to_le_bytes());
    f.extend_from_slice(&(s.below(1 << 32) as u32).to_le_bytes());
    f.extend_from_slice(&(s.below(1 << 16) as u16).to_le_bytes());
    f.extend_from_slice(&bits.to_le_bytes());
    f
}

fn gen_hostile(s: &mut Src) -> Hostile {
    let what = match s.below(8) {
        0 => Bad::Bytes((0..s.size(64)).map(|_| s.below(256) as u8).collect()),
        1..=3 => {
            let pieces = s.list(0, 5, |s| {
                let (id, data) = match s.below(6) {
                    0..=1 => {
                        let mut f = fmt_bytes(s);
                        if s.chance(1, 8) {
                            f.truncate(s.us(0, 16));
                        }
                        (*b"fmt ", f)
                    }
                    2..=3 => {
                        // mostly whole frames of any format
                        let n = if s.chance(3, 4) { 48 * s.us(0, 4) } else { s.size(100) };
                        (*b"data", (0..n).map(|_| s.below(256) as u8).collect())
                    }
                    4 => (s.pick(&[*b"LIST", *b"RIFF", *b"seqt", *b"fact", *b"junk"]), (0..s.size(24)).map(|_| s.below(256) as u8).collect()),
                    _ => ([s.int(32, 126) as u8, s.int(32, 126) as u8, s.int(32, 126) as u8, s.int(32, 126) as u8], (0..s.size(24)).map(|_| s.below(256) as u8).collect()),
                };
                let lie = if s.chance(1, 10) { s.int(-8, 8) } else { 0 };
                Piece { id, data, lie }
            });
            let outer = if s.chance(1, 12) { s.pick(&[*b"LIST", *b"seqt", *b"RIFX", *b"data", *b"fmt "]) } else { *b"RIFF" };
            let form = if s.chance(1, 8) { s.pick(&[*b"AVI ", *b"wave", *b"WAVF", *b"    "]) } else { *b"WAVE" };
            Bad::Chunks((0..s.size(6)).map(|_| s.below(256) as u8).collect(), outer, form, pieces)
        }
        _ => {
            let w = gen_wav(s, 24);
            let m = s.list(1, 4, |s| match s.below(8) {
                0 => Mutation::Set(s.unit(), s.below(256) as u8),
                1 => Mutation::Flip(s.unit(), s.below(8) as u8),
                2 => Mutation::Truncate(s.unit()),
                3 => Mutation::Insert(s.unit(), (0..s.us(1, 8)).map(|_| s.below(256) as u8).collect()),
                4 => Mutation::Delete(s.unit(), s.us(1, 12)),
                5 => Mutation::Field16(s.pick(&[20usize, 22, 32, 34]), match s.below(3) {
                    0 => s.int(0, 3) as u16,
                    1 => s.pick(&[8u16, 16, 24, 32, 0, 65535, 256, 0x8000]),
                    _ => s.below(65536) as u16,
                }),
                6 => Mutation::Field32(s.pick(&[4usize, 16, 24, 28, 40]), match s.below(3) {
                    0 => s.int(0, 60) as u32,
                    1 => s.pick(&[u32::MAX, u32::MAX - 1, 0x8000_0000, 0x7fff_ffff, 0, 1, 2]),
                    _ => s.below(1 << 20) as u32,
                }),
                _ => Mutation::Append((0..s.us(1, 40)).map(|_| s.below(256) as u8).collect()),
            });
            Bad::Mutate(w, m)
        }
    };
    let how = if s.chance(1, 3) { Chunking::gen(s) } else { Chunking::All };
    Hostile { what, how, fail: if s.chance(1, 5) { Some((s.unit(), s.below(KINDS.len() as u64))) } else { None } }
}

fn bytes_of(b: &Bad) -> Vec<u8> {
    match b {
        Bad::Bytes(v) => v.clone(),
        Bad::Chunks(tail, outer, form, pieces) => {
            let mut body = form.to_vec();
            for p in pieces {
                body.extend_from_slice(&p.id);
                body.extend_from_slice(&((p.data.len() as i64 + p.lie).max(0) as u32).to_le_bytes());
                body.extend_from_slice(&p.data);
                if p.data.len() % 2 == 1 {
                    body.push(0);
                }
            }
            let mut out = outer.to_vec();
            out.extend_from_slice(&(body.len() as u32).to_le_bytes());
            out.extend(body);
            out.extend_from_slice(tail);
            out
        }
        Bad::Mutate(w, ms) => {
            let mut b = encode(w);
            for m in ms {
                let n = b.len();
                let at = |x: f64| ((n as f64 * x) as usize).min(n.saturating_sub(1));
                match m {
                    Mutation::Set(x, v) if n > 0 => b[at(*x)] = *v,
                    Mutation::Flip(x, v) if n > 0 => b[at(*x)] ^= 1 << v,
                    Mutation::Truncate(x) => b.truncate((n as f64 * x) as usize),
                    Mutation::Insert(x, v) => {
                        let i = (n as f64 * x) as usize;
                        b.splice(i..i, v.iter().copied());
                    }
                    Mutation::Delete(x, k) => {
                        let i = (n as f64 * x) as usize;
                        b.drain(i..(i + k).min(n));
                    }
                    Mutation::Field16(i, v) if n >= i + 2 => b[*i..i + 2].copy_from_slice(&v.to_le_bytes()),
                    Mutation::Field32(i, v) if n >= i + 4 => b[*i..i + 4].copy_from_slice(&v.to_le_bytes()),
                    Mutation::Append(v) => b.extend_from_slice(v),
                    _ => {}
                }
            }
            b
        }
    }
}

/// The chunk tree as the RIFF dependency reads it, to recognise the inputs on
/// which the WAV dependency never returns (no channels, 16 or 24 bits, data).
fn endless(b: &[u8]) -> bool {
    fn walk(b: &[u8], pos: &mut usize, depth: usize) -> Option<([u8; 4], u64, Vec<u8>, Vec<([u8; 4], Vec<u8>, bool)>)> {
        let id: [u8; 4] = b.get(*pos..*pos + 4)?.try_into().ok()?;
        let len = u32::from_le_bytes(b.get(*pos + 4..*pos + 8)?.try_into().ok()?) as u64;
        *pos += 8;
        if [*b"RIFF", *b"LIST", *b"seqt"].contains(&id) {
            let form = b.get(*pos..*pos + 4)?.to_vec();
            *pos += 4;
            let mut count = 4u64;
            let mut subs = Vec::new();
            while count < len {
                let (i, n, d, s) = walk(b, pos, depth + 1)?;
                let list = !s.is_empty() || [*b"RIFF", *b"LIST", *b"seqt"].contains(&i);
                subs.push((i, d, list));
                count += n + 8;
            }
            Some((id, count, form, subs))
        } else {
            let n = len + len % 2;
            let d = b.get(*pos..(*pos as u64 + n) as usize)?[..len as usize].to_vec();
            *pos += n as usize;
            Some((id, n, d, vec![]))
        }
    }
    let mut pos = 0;
    if let Some((_, _, _, subs)) = walk(b, &mut pos, 0) {
        let mut head = None;
        for (id, d, list) in &subs {
            if id == b"fmt " && !list && d.len() >= 16 {
                head = Some((u16::from_le_bytes([d[2], d[3]]), u16::from_le_bytes([d[14], d[15]])));
            }
        }
        if let Some((0, 16 | 24)) = head {
            return subs.iter().any(|s| &s.0 == b"data") && subs.get(1).map_or(false, |s| !s.2 && !s.1.is_empty());
        }
    }
    false
}

/// `<crate>/src/lib.rs:<line>` of a panic inside a dependency.
fn dependency_site(loc: &str) -> Option<String> {
    ["wav-0.3.0/", "riff-0.1.1/"].iter().find_map(|d| loc.find(d).map(|i| loc[i..].to_string()))
}

fn judge_read(bytes: &[u8], r: Result<io::Result<(wav_header::H, usize)>, (String, String)>, obs: &mut Obs) -> Res {
    match r {
        Err((loc, msg)) => {
            if let Some(site) = dependency_site(&loc) {
                if is_known(&site) {
                    obs.excluded += 1;
                    obs.label("known panic inside a dependency");
                    return Ok(());
                }
            }
            Err(format!("panicked at {loc}: {msg} on {} bytes {:02x?}", bytes.len(), &bytes[..bytes.len().min(200)]))
        }
        Ok(Err(_)) => {
            obs.label("refused");
            Ok(())
        }
        Ok(Ok((h, tracks))) => {
            obs.label("decoded");
            ensure!(tracks == h.channels as usize, "{tracks} tracks for {} channels", h.channels);
            ensure!(h.channels > 0, "accepted a header without channels");
            ensure!(h.format == 1, "accepted format {}", h.format);
            ensure!([8, 16, 24].contains(&h.bits), "accepted a bit depth of {}", h.bits);
            ensure!(bytes.len() >= 12 && &bytes[8..12] == b"WAVE", "accepted a file that is not WAVE");
            ensure!([&b"RIFF"[..], b"LIST", b"seqt"].contains(&&bytes[..4]), "accepted a file that is not RIFF");
            Ok(())
        }
    }
}

mod wav_header {
    pub struct H {
        pub format: u16,
        pub channels: u16,
        pub bits: u16,
    }
}

fn read_caught(r: &mut dyn Read) -> Result<io::Result<(wav_header::H, usize)>, (String, String)> {
    catch(|| {
        read_wav(r).map(|(h, t)| {
            (wav_header::H { format: h.audio_format, channels: h.channel_count, bits: h.bits_per_sample }, t.len())
        })
    })
}

fn run_hostile(c: &Hostile, obs: &mut Obs) -> Res {
    let bytes = bytes_of(&c.what);
    if is_known("endless-no-channels") && endless(&bytes) {
        obs.excluded += 1;
        obs.label("excluded: endless in a dependency");
        return Ok(());
    }
    let mut r = ChunkedReader::new(&bytes, c.how.clone());
    if let Some((x, k)) = c.fail {
        r.fail_at = Some(((bytes.len() as f64 * x) as usize, KINDS[k as usize]));
        obs.label("source fails");
    }
    let res = read_caught(&mut r);
    obs.compared += 1;
    obs.nontrivial = bytes.len() > 12;
    judge_read(&bytes, res, obs)
}

/// A valid file, read from a source that ends or fails at each byte in turn.
fn gen_cut(s: &mut Src) -> WavSpec {
    gen_wav(s, 12)
}

fn run_cut(w: &WavSpec, obs: &mut Obs) -> Res {
    let bytes = encode(w);
    for at in 0..bytes.len() {
        for kind in [None, Some(KINDS[at % KINDS.len()]), Some(KINDS[(at * 5 + 3) % KINDS.len()])] {
            let mut r = ChunkedReader::new(if kind.is_none() { &bytes[..at] } else { &bytes }, Chunking::All);
            r.fail_at = kind.map(|k| (at, k));
            let res = read_caught(&mut r);
            obs.compared += 1;
            if let Ok(Ok(_)) = res {
                return Err(format!("decoded a file cut at byte {at} of {}", bytes.len()));
            }
            judge_read(&bytes[..at], res, obs)?;
        }
    }
    obs.nontrivial = true;
    Ok(())
}

/// Files that are well-formed but for one header field.
#[derive(Debug)]
struct Field {
    wav: WavSpec,
    which: u64,
    v: u16,
}

fn gen_field(s: &mut Src) -> Field {
    let mut wav = gen_wav(s, 12);
    let which = s.below(4);
    let v = match which {
        0 => loop_not(s.below(65536) as u16, &[1], 3),
        1 => loop_not(if s.chance(1, 2) { s.below(65536) as u16 } else { s.int(1, 64) as u16 }, &[8, 16, 24], 32),
        _ => 0,
    };
    if which == 2 {
        // the WAV dependency never returns for other depths
        wav.bits = 8;
        wav.codes.iter_mut().for_each(|c| *c &= 255);
    }
    Field { wav, which, v }
}

fn loop_not(v: u16, bad: &[u16], or: u16) -> u16 {
    if bad.contains(&v) {
        or
    } else {
        v
    }
}

fn run_field(c: &Field, obs: &mut Obs) -> Res {
    let mut b = encode(&c.wav);
    let what = match c.which {
        0 => {
            b[20..22].copy_from_slice(&c.v.to_le_bytes());
            "a compressed format"
        }
        1 => {
            b[34..36].copy_from_slice(&c.v.to_le_bytes());
            "an unsupported bit depth"
        }
        2 => {
            b[22..24].copy_from_slice(&[0, 0]);
            "no channels"
        }
        _ => {
            b[8..12].copy_from_slice(b"AVI ");
            "another container"
        }
    };
    obs.compared += 1;
    obs.nontrivial = true;
    obs.label(what);
    match read_caught(&mut &b[..]) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => Err(format!("accepted {what} ({})", c.v)),
        Err((l, m)) => Err(format!("panicked on {what} ({}) at {l}: {m}", c.v)),
    }
}

/// A panic elsewhere than at the recorded site is left to the generated cases.
macro_rules! panic_probe {
    ($name:ident, $site:expr, $bytes:expr) => {
        fn $name() -> Option<String> {
            let bytes: Vec<u8> = $bytes;
            match read_caught(&mut &bytes[..]) {
                Err((l, m)) if l.ends_with($site) => Some(format!("panicked at {l}: {m} on {bytes:02x?}")),
                Err((l, m)) if std::env::var("VERIF_PROBES").is_ok() => Some(format!("ELSEWHERE {l}: {m}")),
                _ => None,
            }
        }
    };
}

fn small(bits: u16, channels: u16, codes: Vec<i32>) -> Vec<u8> {
    encode(&WavSpec { channels, rate: 48000, bits, fmt_extra: vec![], codes, trailing: vec![] })
}

fn patched(mut b: Vec<u8>, at: usize, with: &[u8]) -> Vec<u8> {
    b[at..at + with.len()].copy_from_slice(with);
    b
}

panic_probe!(probe_len, "riff-0.1.1/src/lib.rs:241", b"RIFF\x01".to_vec());
panic_probe!(probe_id, "riff-0.1.1/src/lib.rs:42", patched(small(8, 1, vec![1, 2]), 36, b"d\xffta"));
panic_probe!(probe_fmt, "wav-0.3.0/src/lib.rs:139", {
    let mut body = b"WAVE".to_vec();
    chunk(&mut body, b"fmt ", &[1, 0, 1, 0]);
    chunk(&mut body, b"data", &[0, 0]);
    let mut f = Vec::new();
    chunk(&mut f, b"RIFF", &body);
    f
});
panic_probe!(probe_frame16, "wav-0.3.0/src/lib.rs:280", patched(small(16, 1, vec![1, 2, 3]), 22, &[2, 0]));
panic_probe!(probe_frame24, "wav-0.3.0/src/lib.rs:291", patched(small(24, 1, vec![1, 2, 3]), 22, &[2, 0]));
panic_probe!(probe_odd, "riff-0.1.1/src/lib.rs:279", patched(small(8, 1, vec![1, 2]), 40, &[255; 4]));

/// Reads the given file; run as a child process, for files it may never end on.
pub fn read_hex(hex: &str) -> i32 {
    let b: Vec<u8> = (0..hex.len() / 2).filter_map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).ok()).collect();
    let _ = read_caught(&mut &b[..]);
    0
}

/// No channels, 16-bit data: the WAV dependency never finishes.
fn probe_endless() -> Option<String> {
    let b = patched(small(16, 1, vec![1, 2, 3]), 22, &[0, 0]);
    let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
    let me = std::env::current_exe().ok()?;
    let mut kid = std::process::Command::new("bash")
        .args(["-c", "ulimit -v 1000000; exec \"$0\" read-hex \"$1\" 2>/dev/null", me.to_str()?, &hex])
        .spawn()
        .ok()?;
    let t0 = std::time::Instant::now();
    loop {
        match kid.try_wait() {
            Ok(Some(st)) if st.code() == Some(0) => return None,
            Ok(Some(st)) => return Some(format!("reading a 16-bit file without channels ends with {st}")),
            _ if t0.elapsed().as_secs() >= 5 => {
                let _ = kid.kill();
                let _ = kid.wait();
                return Some("reading a 16-bit file without channels does not end".into());
            }
            _ => std::thread::sleep(std::time::Duration::from_millis(20)),
        }
    }
}

/// A chunk between the format and the data chunk is read as the audio.
fn probe_between() -> Option<String> {
    let mut body = b"WAVE".to_vec();
    chunk(&mut body, b"fmt ", &small(8, 1, vec![])[20..36]);
    chunk(&mut body, b"fact", &[9, 0, 0, 0]);
    chunk(&mut body, b"data", &[128, 255, 0, 128, 64, 32]);
    let mut f = Vec::new();
    chunk(&mut f, b"RIFF", &body);
    match catch(|| read_wav(&mut &f[..])) {
        Ok(Ok((_, t))) if t.len() == 1 && t[0].len() == 6 => None,
        Ok(Ok((_, t))) => Some(format!("read {:?} from a file holding 6 samples after a fact chunk", t)),
        Ok(Err(e)) => Some(format!("failed: {e}")),
        Err((l, m)) => Some(format!("panicked at {l}: {m}")),
    }
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C10",
            rule: "A case is a set of tracks (0 to 3000 samples, 1 to 65535 channels, quiet to far beyond full scale), a bit depth and a clip setting; the file is decoded by an independent strict decoder and by read_wav and compared sample by sample, then written again. Non-trivial: at least one sample.",
            assumptions: &["frames of at most 65535 bytes (what a WAV header can state)", "samples beyond full scale only with clipping requested"],
            subs: vec![Sub::new("round_trip", 600_000, 12_000_000, gen_tracks, run_tracks), Sub::new("wide", 96, 1_920, gen_wide, run_wide), Sub::new("big", 48, 960, gen_big, run_tracks), Sub::new("rests", 96, 1_920, gen_rests, run_tracks), Sub::new("huge", 3, 60, gen_huge, run_tracks).threads(3)],
            probes: vec![],
        },
        Property {
            id: "C11",
            rule: "A case is a set of tracks and a sink with a pattern of short and interrupted writes that fails or accepts nothing from a given byte on (inside, at the end of, or beyond the file), or a set of invalid arguments. Non-trivial: the sink fails within the file or takes it in several writes, or the arguments are invalid.",
            assumptions: &[],
            subs: vec![Sub::new("sinks", 960_000, 19_200_000, gen_sink, run_sink), Sub::new("invalid", 12_000, 240_000, gen_invalid, run_invalid)],
            probes: vec![],
        },
        Property {
            id: "C12",
            rule: "A case is a well-formed PCM file from an independent encoder (any channel count, rate, depth, longer format chunks, chunks and bytes after the data) and a partition of its bytes into short and interrupted reads; header and every sample are compared. Non-trivial: at least one sample.",
            assumptions: &["the data chunk directly follows the format chunk (see the known finding)"],
            subs: vec![Sub::new("decode", 1_200_000, 24_000_000, gen_decode, run_decode), Sub::new("big", 64, 1_280, gen_decode_big, run_decode), Sub::new("rests", 96, 1_920, gen_decode_rests, run_decode), Sub::new("huge", 3, 60, gen_decode_huge, run_decode).threads(3), Sub::new("all_codes", 1_000, 20_000, gen_stretch, run_stretch)],
            probes: vec![Probe { key: "chunk-between", run: probe_between }],
        },
        Property {
            id: "C13",
            rule: "A case is a byte string (mutations of valid files, free combinations of chunks with wrong lengths, random bytes) and a source that may fail at any byte; plus every prefix of generated valid files and single-field corruptions that must be refused. Non-trivial: more than 12 bytes.",
            assumptions: &["panics at the listed sites inside the wav and riff dependencies are known findings and are counted as excluded, as are inputs on which the wav dependency loops forever"],
            subs: vec![
                Sub::new("hostile", 1_200_000, 40_000_000, gen_hostile, run_hostile),
                Sub::new("cut", 12_000, 240_000, gen_cut, run_cut),
                Sub::new("field", 160_000, 3_200_000, gen_field, run_field),
            ],
            probes: vec![
                Probe { key: "endless-no-channels", run: probe_endless },
                Probe { key: "riff-0.1.1/src/lib.rs:241", run: probe_len },
                Probe { key: "riff-0.1.1/src/lib.rs:42", run: probe_id },
                Probe { key: "riff-0.1.1/src/lib.rs:279", run: probe_odd },
                Probe { key: "wav-0.3.0/src/lib.rs:139", run: probe_fmt },
                Probe { key: "wav-0.3.0/src/lib.rs:280", run: probe_frame16 },
                Probe { key: "wav-0.3.0/src/lib.rs:291", run: probe_frame24 },
            ],
        },
    ]
}
