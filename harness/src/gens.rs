//! Generators shared by the properties.

use crate::engine::{Rng, Src};

/// Frequencies in (0, 24000] Hz.
pub fn freq(s: &mut Src) -> f64 {
    match s.below(10) {
        0 => s.pick(&[
            440.0, 1.0, 24000.0, 12000.0, 8000.0, 6000.0, 4800.0, 16000.0, 100.0, 10.0, 1000.0, 3.0, 23999.0,
            23999.999, 0.5, 0.001, 20.0, 20000.0, 48000.0 / 7.0, 48000.0 / 3.0, 9600.0, 19200.0, 22050.0, 30.0,
            18000.0, 14400.0,
        ]),
        1..=2 => s.int(1, 24000) as f64,
        3 => 48000.0 / s.int(2, 4096) as f64,
        4 => 24000.0 - s.logu(1e-9, 100.0),
        5 => s.logu(1e-9, 1.0),
        6 => s.uni(12000.0, 24000.0).max(1.0),
        7 => s.uni(0.0, 24000.0).max(1e-6),
        _ => s.logu(0.1, 24000.0),
    }
}

/// A part of a test signal. Long parts are described rather than listed, so
/// that cases stay small and shrink well.
#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    Const(f32, usize),
    Impulse(f32, usize),
    Ramp(f32, f32, usize),
    Tone(f64, f32, usize),
    Alternate(f32, usize),
    Noise(u64, f32, usize),
    Raw(Vec<f32>),
}

pub type Signal = Vec<Seg>;

pub fn amp(s: &mut Src) -> f32 {
    match s.below(8) {
        0..=2 => 1.0,
        3 => s.pick(&[0.0, 0.5, -1.0, -0.25, 2.0, 1e-3, 1e-6, 100.0, 1e4]),
        4 => s.logu(1e-6, 1e4) as f32,
        5 => -s.logu(1e-6, 1e4) as f32,
        6 if s.chance(1, 4) => s.logu(1e-30, 1e-6) as f32,
        _ => s.uni(-1.0, 1.0) as f32,
    }
}

/// Ordinary finite sample values.
pub fn sample(s: &mut Src) -> f32 {
    match s.below(6) {
        0 => s.pick(&[0.0, 1.0, -1.0, 0.5, -0.5, -0.0, 2.0, -3.0, 0.25, 1e-3]),
        1 => s.int(-64, 64) as f32 / 16.0,
        2..=3 => s.uni(-1.0, 1.0) as f32,
        4 if s.chance(1, 8) => s.logu(1e-30, 1e-6) as f32,
        4 => s.logu(1e-6, 1e3) as f32,
        _ => -s.logu(1e-6, 1e3) as f32,
    }
}

pub fn seg(s: &mut Src, max: usize) -> Seg {
    match s.below(8) {
        0 => {
            let v = s.list(0, 24, sample);
            Seg::Raw(v)
        }
        1 => Seg::Const(amp(s), 1 + s.size(max)),
        2 => Seg::Impulse(amp(s), 1 + s.size(max)),
        3 => Seg::Ramp(amp(s), amp(s), 1 + s.size(max)),
        4 => Seg::Tone(freq(s), amp(s), 1 + s.size(max)),
        5 => Seg::Alternate(amp(s), 1 + s.size(max)),
        _ => Seg::Noise(s.below(1 << 16), amp(s), 1 + s.size(max)),
    }
}

/// A signal of bursts and long stretches of exact silence (or of one value),
/// up to `most` samples.
pub fn rests(s: &mut Src, most: usize) -> Signal {
    let mut v = Vec::new();
    let mut left = most;
    let burst = |s: &mut Src| Seg::Noise(s.below(1 << 16), 1.0, 1 + s.size(5000));
    if !s.chance(1, 6) {
        v.push(burst(s));
    }
    for _ in 0..s.us(1, 3) {
        let n = if s.chance(1, 2) { s.us(left / 3, left) } else { s.logu(200.0, left as f64) as usize };
        let value = match s.below(8) {
            0 => amp(s),
            1 => -0.0,
            _ => 0.0,
        };
        v.push(Seg::Const(value, n));
        if !s.chance(1, 5) {
            v.push(burst(s));
        }
        left -= n.min(left);
        if left < 1000 {
            break;
        }
    }
    v
}

/// A signal of a few segments, each at most `max` samples.
pub fn signal(s: &mut Src, max: usize) -> Signal {
    s.list(1, 5, |s| seg(s, max))
}

impl Seg {
    pub fn render(&self, out: &mut Vec<f32>) {
        match self {
            Seg::Const(v, n) => out.extend(std::iter::repeat(*v).take(*n)),
            Seg::Impulse(v, n) => {
                out.push(*v);
                out.extend(std::iter::repeat(0.0).take(n.saturating_sub(1)));
            }
            Seg::Ramp(a, b, n) => {
                for i in 0..*n {
                    out.push(a + (b - a) * (i as f32 / *n as f32));
                }
            }
            Seg::Tone(f, a, n) => {
                for i in 0..*n {
                    let ph = (i as f64 * f / 48000.0).fract();
                    out.push(((ph * std::f64::consts::TAU).sin() * *a as f64) as f32);
                }
            }
            Seg::Alternate(a, n) => {
                for i in 0..*n {
                    out.push(if i % 2 == 0 { *a } else { -a });
                }
            }
            Seg::Noise(seed, a, n) => {
                let mut r = Rng::new(*seed);
                for _ in 0..*n {
                    out.push(((r.unit() * 2.0 - 1.0) * *a as f64) as f32);
                }
            }
            Seg::Raw(v) => out.extend_from_slice(v),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Seg::Const(_, n) | Seg::Impulse(_, n) | Seg::Ramp(_, _, n) | Seg::Tone(_, _, n) | Seg::Alternate(_, n)
            | Seg::Noise(_, _, n) => *n,
            Seg::Raw(v) => v.len(),
        }
    }
}

pub fn render(sig: &[Seg]) -> Vec<f32> {
    let mut v = Vec::with_capacity(sig.iter().map(Seg::len).sum());
    for s in sig {
        s.render(&mut v);
    }
    v
}

/// Any f32 bit pattern, special values included.
pub fn any_f32(s: &mut Src) -> f32 {
    match s.below(6) {
        0 => sample(s),
        1 => s.pick(&[
            f32::NAN,
            f32::INFINITY,
            f32::NEG_INFINITY,
            f32::MIN_POSITIVE,
            -f32::MIN_POSITIVE,
            1e-45,
            f32::MAX,
            f32::MIN,
            -0.0,
            0.0,
        ]),
        _ => f32::from_bits(s.below(1 << 32) as u32),
    }
}

/// Finite f32 of every sign and magnitude.
pub fn finite_f32(s: &mut Src) -> f32 {
    let v = any_f32(s);
    if v.is_finite() {
        v
    } else {
        1.0
    }
}

/// Sum of f64s with twice the precision.
#[derive(Clone, Copy, Debug, Default)]
pub struct DD {
    pub hi: f64,
    pub lo: f64,
}

impl DD {
    pub fn new(x: f64) -> Self {
        DD { hi: x, lo: 0.0 }
    }
    pub fn add(self, x: f64) -> Self {
        let s = self.hi + x;
        let bb = s - self.hi;
        let e = (self.hi - (s - bb)) + (x - bb);
        let lo = self.lo + e;
        let hi = s + lo;
        DD { hi, lo: lo - (hi - s) }
    }
    /// Adds the exact product a * b.
    pub fn add_prod(self, a: f64, b: f64) -> Self {
        let p = a * b;
        let e = a.mul_add(b, -p);
        self.add(p).add(e)
    }
    pub fn floor(self) -> f64 {
        let f = self.hi.floor();
        if f == self.hi && self.lo < 0.0 {
            f - 1.0
        } else {
            f
        }
    }
    /// self - x, for x close to or much smaller than self.
    pub fn minus(self, x: f64) -> f64 {
        (self.hi - x) + self.lo
    }
}

/// Cycle position in units of 2^-64 cycles, advanced exactly enough that its
/// error is negligible over any run.
#[derive(Clone, Copy, Debug, Default)]
pub struct Phase(pub u64);

/// round(f / 48000 * 2^64) computed from the exact value of `f`.
pub fn phase_inc(f: f64) -> u64 {
    let bits = f.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i64;
    let m = (bits & ((1 << 52) - 1)) | if e == 0 { 0 } else { 1 << 52 };
    let e = (if e == 0 { 1 } else { e }) - 1075 + 64;
    let m = m as u128;
    let v = if e >= 0 {
        (m << e) / 48000
    } else if e > -120 {
        // keep precision for small frequencies
        let up = 60u32;
        ((m << up) / 48000) >> ((-e) as u32 + up).min(127)
    } else {
        0
    };
    v as u64
}

impl Phase {
    pub fn step(&mut self, inc: u64) {
        self.0 = self.0.wrapping_add(inc);
    }
    /// In [0, 1).
    pub fn cycles(self) -> f64 {
        self.0 as f64 / 18446744073709551616.0
    }
}
