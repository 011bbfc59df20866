//! All generators and modifiers behind one description, for the properties
//! that hold for every type.

use crate::engine::Src;
use crate::gens::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::utils::MonoResampler;
use bae_rs::Mono;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Bp {
    Fq(f64, f64),
    Corners(f64, f64),
}

impl Bp {
    pub fn centre(&self) -> f64 {
        match *self {
            Bp::Fq(f, _) => f,
            Bp::Corners(a, b) => (a * b).sqrt(),
        }
    }
    pub fn quality(&self) -> f64 {
        match *self {
            Bp::Fq(_, q) => q,
            Bp::Corners(a, b) => (a * b).sqrt() / (a - b).abs(),
        }
    }
    /// Ascending.
    pub fn corners(&self) -> (f64, f64) {
        match *self {
            Bp::Corners(a, b) => (a.min(b), a.max(b)),
            Bp::Fq(f, q) => {
                // lower * upper = f^2, upper - lower = f / q
                let h = 0.5 / q;
                let up = f * ((1.0 + h * h).sqrt() + h);
                (f / ((1.0 + h * h).sqrt() + h), up)
            }
        }
    }
    pub fn legal(&self) -> bool {
        let (l, u) = self.corners();
        l >= 1.0 && l < u * (1.0 - 1e-7) && u < 23_999.999 && self.quality() > 1e-3
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    Sine(f64),
    Saw(f64),
    Square(f64),
    Triangle(f64),
    Zero,
    Wav { sig: Signal, rate: f64, speed: f64 },
    Resampler { sig: Signal, rate: f64, a: usize, b: usize, speed: f64 },
    LowPass(f64, f64),
    HighPass(f64, f64),
    BandPass(Bp),
    Envelope(f32, f32),
    Adsr { a: u64, d: u64, s: f64, r: u64 },
    Delay(u64),
    Echo(u64, f64),
    Gain(f32),
    Pass,
    Generic(Vec<(usize, f32)>, Vec<(usize, f32)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Setting {
    Freq(f64),
    Resonance(f64),
    Quality(f64),
    Corners(f64, f64),
    Speed(f64),
    Factor(f32),
    Release,
}

pub enum Obj {
    Sine(Sine),
    Saw(Sawtooth),
    Square(Square),
    Triangle(Triangle),
    Zero(Zero),
    Wav(MonoWav),
    Resampler(MonoResampler),
    LowPass(LowPass),
    HighPass(HighPass),
    BandPass(BandPass),
    Envelope(Envelope),
    Adsr(ADSR),
    Delay(Delay),
    Echo(Echo),
    Gain(Gain),
    Pass(Passthrough),
    Generic(Generic),
}

pub const CAP: f64 = 24_000.0;

pub fn track(sig: &Signal) -> Vec<Mono> {
    render(sig).into_iter().map(Mono::from).collect()
}

impl Spec {
    pub fn build(&self) -> Obj {
        match self {
            Spec::Sine(f) => Obj::Sine(Sine::new(*f)),
            Spec::Saw(f) => Obj::Saw(Sawtooth::new(*f)),
            Spec::Square(f) => Obj::Square(Square::new(*f)),
            Spec::Triangle(f) => Obj::Triangle(Triangle::new(*f)),
            Spec::Zero => Obj::Zero(Zero::new()),
            Spec::Wav { sig, rate, speed } => {
                let mut w = MonoWav::from_track(*rate, track(sig));
                w.get_mut().set_playback_speed(*speed);
                Obj::Wav(w)
            }
            Spec::Resampler { sig, rate, a, b, speed } => {
                let mut r = MonoResampler::new(track(sig), *rate, *a, *b);
                r.set_playback_speed(*speed);
                Obj::Resampler(r)
            }
            Spec::LowPass(f, r) => Obj::LowPass(LowPass::new(*f, *r)),
            Spec::HighPass(f, r) => Obj::HighPass(HighPass::new(*f, *r)),
            Spec::BandPass(Bp::Fq(f, q)) => Obj::BandPass(BandPass::new(*f, *q)),
            Spec::BandPass(Bp::Corners(a, b)) => Obj::BandPass(BandPass::from_corners((*a, *b))),
            Spec::Envelope(l, u) => Obj::Envelope(Envelope::new(*l, *u)),
            Spec::Adsr { a, d, s, r } => Obj::Adsr(ADSR::new(
                Duration::from_nanos(*a),
                Duration::from_nanos(*d),
                *s,
                Duration::from_nanos(*r),
            )),
            Spec::Delay(d) => Obj::Delay(Delay::new(Duration::from_nanos(*d))),
            Spec::Echo(d, g) => Obj::Echo(Echo::new(Duration::from_nanos(*d), *g)),
            Spec::Gain(a) => Obj::Gain(Gain::new(*a)),
            Spec::Pass => Obj::Pass(Passthrough::new()),
            Spec::Generic(z, p) => Obj::Generic(Generic::new(z.iter().copied().collect(), p.iter().copied().collect())),
        }
    }

    /// The settings after a change.
    pub fn apply(&mut self, s: &Setting) {
        match (self, s) {
            (Spec::Sine(f) | Spec::Saw(f) | Spec::Square(f) | Spec::Triangle(f), Setting::Freq(x)) => *f = *x,
            (Spec::LowPass(f, _) | Spec::HighPass(f, _), Setting::Freq(x)) => *f = x.min(CAP),
            (Spec::LowPass(_, r) | Spec::HighPass(_, r), Setting::Resonance(x)) => *r = x.min(1.0).max(0.0),
            (Spec::BandPass(b), Setting::Freq(x)) => *b = Bp::Fq(*x, b.quality()),
            (Spec::BandPass(b), Setting::Quality(x)) => *b = Bp::Fq(b.centre(), *x),
            (Spec::BandPass(b), Setting::Corners(l, u)) => *b = Bp::Corners(*l, *u),
            (Spec::Wav { speed, .. } | Spec::Resampler { speed, .. }, Setting::Speed(x)) => *speed = *x,
            (Spec::Gain(a), Setting::Factor(x)) => *a = *x,
            _ => {}
        }
    }

    pub fn kind(&self) -> &'static str {
        match self {
            Spec::Sine(_) => "sine",
            Spec::Saw(_) => "sawtooth",
            Spec::Square(_) => "square",
            Spec::Triangle(_) => "triangle",
            Spec::Zero => "zero",
            Spec::Wav { .. } => "wav player",
            Spec::Resampler { .. } => "resampler",
            Spec::LowPass(..) => "low pass",
            Spec::HighPass(..) => "high pass",
            Spec::BandPass(_) => "band pass",
            Spec::Envelope(..) => "envelope",
            Spec::Adsr { .. } => "adsr",
            Spec::Delay(_) => "delay",
            Spec::Echo(..) => "echo",
            Spec::Gain(_) => "gain",
            Spec::Pass => "passthrough",
            Spec::Generic(..) => "generic",
        }
    }

    pub fn is_generator(&self) -> bool {
        matches!(
            self,
            Spec::Sine(_) | Spec::Saw(_) | Spec::Square(_) | Spec::Triangle(_) | Spec::Zero | Spec::Wav { .. } | Spec::Resampler { .. }
        )
    }
}

impl Obj {
    /// One sample; generators ignore the input.
    pub fn step(&mut self, x: f32) -> f32 {
        match self {
            Obj::Sine(o) => o.process(),
            Obj::Saw(o) => o.process(),
            Obj::Square(o) => o.process(),
            Obj::Triangle(o) => o.process(),
            Obj::Zero(o) => o.process(),
            Obj::Wav(o) => o.process(),
            Obj::Resampler(o) => o.process(),
            Obj::LowPass(o) => o.process(x),
            Obj::HighPass(o) => o.process(x),
            Obj::BandPass(o) => o.process(x),
            Obj::Envelope(o) => o.process(x),
            Obj::Adsr(o) => o.process(x),
            Obj::Delay(o) => o.process(x),
            Obj::Echo(o) => o.process(x),
            Obj::Gain(o) => o.process(x),
            Obj::Pass(o) => o.process(x),
            Obj::Generic(o) => o.process(x),
        }
    }

    pub fn set(&mut self, s: &Setting) {
        match (self, s) {
            (Obj::Sine(o), Setting::Freq(f)) => o.set_frequency(*f),
            (Obj::Saw(o), Setting::Freq(f)) => o.set_frequency(*f),
            (Obj::Square(o), Setting::Freq(f)) => o.set_frequency(*f),
            (Obj::Triangle(o), Setting::Freq(f)) => o.set_frequency(*f),
            (Obj::LowPass(o), Setting::Freq(f)) => o.set_central_frequency(*f),
            (Obj::LowPass(o), Setting::Resonance(r)) => o.set_resonance(*r),
            (Obj::HighPass(o), Setting::Freq(f)) => o.set_central_frequency(*f),
            (Obj::HighPass(o), Setting::Resonance(r)) => o.set_resonance(*r),
            (Obj::BandPass(o), Setting::Freq(f)) => o.set_central_frequency(*f),
            (Obj::BandPass(o), Setting::Quality(q)) => o.set_quality(*q),
            (Obj::BandPass(o), Setting::Corners(a, b)) => o.set_corner_frequencies((*a, *b)),
            (Obj::Wav(o), Setting::Speed(x)) => o.get_mut().set_playback_speed(*x),
            (Obj::Resampler(o), Setting::Speed(x)) => o.set_playback_speed(*x),
            (Obj::Gain(o), Setting::Factor(a)) => o.a = *a,
            (Obj::Adsr(o), Setting::Release) => o.release(),
            _ => {}
        }
    }

    pub fn duplicate(&self) -> Obj {
        match self {
            Obj::Sine(o) => Obj::Sine(o.clone()),
            Obj::Saw(o) => Obj::Saw(o.clone()),
            Obj::Square(o) => Obj::Square(o.clone()),
            Obj::Triangle(o) => Obj::Triangle(o.clone()),
            Obj::Zero(o) => Obj::Zero(o.clone()),
            Obj::Wav(o) => Obj::Wav(o.clone()),
            Obj::Resampler(o) => Obj::Resampler(o.clone()),
            Obj::LowPass(o) => Obj::LowPass(o.clone()),
            Obj::HighPass(o) => Obj::HighPass(o.clone()),
            Obj::BandPass(o) => Obj::BandPass(o.clone()),
            Obj::Envelope(o) => Obj::Envelope(o.clone()),
            Obj::Adsr(o) => Obj::Adsr(o.clone()),
            Obj::Delay(o) => Obj::Delay(o.clone()),
            Obj::Echo(o) => Obj::Echo(o.clone()),
            Obj::Gain(o) => Obj::Gain(o.clone()),
            Obj::Pass(o) => Obj::Pass(o.clone()),
            Obj::Generic(o) => Obj::Generic(o.clone()),
        }
    }

    /// Settings the object reports about itself, where it does.
    pub fn reported(&self) -> Vec<(&'static str, f64)> {
        match self {
            Obj::Sine(o) => vec![("frequency", o.get_frequency())],
            Obj::Saw(o) => vec![("frequency", o.get_frequency())],
            Obj::Square(o) => vec![("frequency", o.get_frequency())],
            Obj::Triangle(o) => vec![("frequency", o.get_frequency())],
            Obj::LowPass(o) => vec![("frequency", o.get_central_frequency()), ("resonance", o.get_resonance())],
            Obj::HighPass(o) => vec![("frequency", o.get_central_frequency()), ("resonance", o.get_resonance())],
            Obj::BandPass(o) => {
                let c = o.get_corner_frequencies();
                vec![
                    ("frequency", o.get_central_frequency()),
                    ("quality", o.get_quality()),
                    ("lower corner", c.0),
                    ("upper corner", c.1),
                ]
            }
            Obj::Wav(o) => vec![("speed", o.get().get_playback_speed())],
            Obj::Resampler(o) => vec![("speed", o.get_playback_speed())],
            Obj::Delay(o) => vec![("delay", o.get_delay().as_secs_f64())],
            Obj::Gain(o) => vec![("factor", o.a as f64)],
            _ => vec![],
        }
    }
}

// ------------------------------------------------------------------ generators

/// Filter cutoffs from 10 Hz up; `over` also gives some beyond the cap.
pub fn cutoff(s: &mut Src, over: bool) -> f64 {
    match s.below(10) {
        0 => s.pick(&[1000.0, 10.0, 100.0, 440.0, 12000.0, 24000.0, 20.0, 23999.0, 50.0, 5000.0, 30.0, 20000.0]),
        1 if over => s.pick(&[24000.5, 48000.0, 30000.0, 1e6, 1e12, f64::INFINITY]),
        2 => s.uni(12_000.0, 24_000.0),
        3 => s.uni(10.0, 24_000.0),
        _ => s.logu(10.0, 24_000.0),
    }
}

pub fn resonance(s: &mut Src, over: bool) -> f64 {
    match s.below(6) {
        0 => s.pick(&[0.0, 1.0, 0.5]),
        1 if over => s.pick(&[-1.0, 2.0, 1.0 + 1e-9, -1e-9, 1e6, -1e6, f64::INFINITY, f64::NEG_INFINITY]),
        _ => s.unit(),
    }
}

pub fn corners(s: &mut Src) -> (f64, f64) {
    let f = |s: &mut Src| match s.below(6) {
        0 => s.int(1, 23_999) as f64,
        1 => s.pick(&[1.0, 2.0, 100.0, 1000.0, 10_000.0, 23_999.0, 23_999.99, 12_000.0, 440.0, 50.0]),
        2 => s.uni(1.0, 23_999.0),
        _ => s.logu(1.0, 23_999.0),
    };
    let a = f(s);
    let b = if s.chance(1, 6) { a * (1.0 + s.logu(1e-6, 1e-1)) } else { f(s) };
    let (a, b) = if Bp::Corners(a, b).legal() { (a, b) } else { (500.0, 1500.0) };
    if s.chance(1, 2) {
        (a, b)
    } else {
        (b, a)
    }
}

pub fn band(s: &mut Src) -> Bp {
    let (a, b) = corners(s);
    if s.chance(1, 2) {
        Bp::Corners(a, b)
    } else {
        let c = Bp::Corners(a, b);
        let f = Bp::Fq(c.centre(), c.quality());
        if f.legal() {
            f
        } else {
            c
        }
    }
}

/// Nanoseconds, at most `max` samples long.
pub fn nanos(s: &mut Src, max: usize) -> u64 {
    let k = s.size(max) as f64;
    let x = match s.below(5) {
        0 => k,
        1 => k + s.pick(&[0.49, 0.51, 0.25, 0.75, 0.4999, 0.5001]),
        2 => k + s.unit(),
        3 => return s.int(0, (max as i64).min(48_000) / 48) as u64 * 1_000_000,
        _ => k,
    };
    (x / 48_000.0 * 1e9).round() as u64
}

pub fn echo_gain(s: &mut Src) -> f64 {
    match s.below(5) {
        0 => s.pick(&[0.5, 0.0, 1.0, -1.0, 0.9, -0.5, 2.0, -1.5, -4.0, 10.0, 1.001, -1.001]),
        1 => -s.unit(),
        2 => {
            let most = if s.chance(1, 4) { 6.0 } else { 1.2 };
            s.uni(-most, most)
        }
        _ => s.unit(),
    }
}

pub fn taps(s: &mut Src, max_n: usize, max_i: usize) -> Vec<(usize, f32)> {
    s.list(0, max_n, |s| (s.size(max_i), match s.below(4) {
        0 => s.pick(&[1.0, -1.0, 0.5, 0.0, 2.0, -0.25]),
        1 => s.int(-8, 8) as f32 / 8.0,
        2 if s.chance(1, 4) => s.logu(1e-3, 1e2) as f32 * if s.chance(1, 2) { 1.0 } else { -1.0 },
        _ => s.uni(-1.0, 1.0) as f32,
    }))
}

/// Coefficients whose feedback cannot grow.
pub fn stable_poles(s: &mut Src) -> Vec<(usize, f32)> {
    let p = taps(s, 4, 40);
    let l1: f32 = p.iter().map(|p| p.1.abs()).sum();
    if l1 <= 0.95 {
        p
    } else {
        p.into_iter().map(|(j, d)| (j, d * (0.9 / l1))).collect()
    }
}

pub fn speed(s: &mut Src) -> f64 {
    match s.below(5) {
        0 => s.pick(&[1.0, 0.0, 0.5, 2.0, 1.5, 0.25]),
        1 => s.unit(),
        _ => s.logu(0.01, 8.0),
    }
}

pub fn rate(s: &mut Src) -> f64 {
    s.pick(&[48000.0, 44100.0, 8000.0, 96000.0, 22050.0, 11025.0, 192000.0, 1.0, 32000.0, 47999.0])
}

pub fn env_freqs(s: &mut Src) -> (f32, f32) {
    let f = |s: &mut Src| match s.below(5) {
        0 => s.pick(&[20.0, 20_000.0, 1.0, 1000.0, 12_000.0, 10.0, 23_000.0]),
        1 => s.uni(1.0, 23_000.0) as f32,
        _ => s.logu(1.0, 23_000.0) as f32,
    };
    let (a, b) = (f(s), f(s));
    if a > b && s.chance(3, 4) {
        (b, a)
    } else {
        (a, b)
    }
}

pub fn sustain(s: &mut Src) -> f64 {
    match s.below(5) {
        0 => s.pick(&[0.0, -6.0, -3.0, 3.0, -60.0, -120.0, -1e-6, 20.0, f64::NEG_INFINITY, -500.0, -1e4, 60.0]),
        1 => -s.logu(1e-6, 100.0),
        _ => s.uni(-30.0, 1.0),
    }
}

pub fn spec(s: &mut Src, max: usize) -> Spec {
    match s.below(17) {
        0 => Spec::Pass,
        1 => Spec::Sine(freq(s)),
        2 => Spec::Saw(freq(s)),
        3 => Spec::Square(freq(s)),
        4 => Spec::Triangle(freq(s)),
        5 => Spec::Zero,
        6 => Spec::Wav { sig: signal(s, max.min(200)), rate: rate(s), speed: speed(s) },
        7 => {
            let sig = signal(s, max.min(200));
            let n: usize = sig.iter().map(|g| g.len()).sum();
            let (a, b) = if n > 0 && s.chance(2, 3) {
                let a = s.us(0, n - 1);
                let b = s.us(a + 1, n);
                if s.chance(1, 4) {
                    (b, a)
                } else {
                    (a, b)
                }
            } else {
                (0, 0)
            };
            Spec::Resampler { sig, rate: rate(s), a, b, speed: speed(s) }
        }
        8 => Spec::LowPass(cutoff(s, true), resonance(s, true)),
        9 => Spec::HighPass(cutoff(s, true), resonance(s, true)),
        10 => Spec::BandPass(band(s)),
        11 => {
            let (l, u) = env_freqs(s);
            Spec::Envelope(l, u)
        }
        12 => Spec::Adsr { a: nanos(s, max), d: nanos(s, max), s: sustain(s), r: nanos(s, max) },
        13 => Spec::Delay(nanos(s, max)),
        14 => Spec::Echo(nanos(s, max), echo_gain(s)),
        15 => Spec::Gain(amp(s)),
        _ => Spec::Generic(taps(s, 5, 40), stable_poles(s)),
    }
}

/// A change of settings that is legal for `sp`, if it has any.
pub fn setting(s: &mut Src, sp: &Spec) -> Option<Setting> {
    Some(match sp {
        Spec::Sine(_) | Spec::Saw(_) | Spec::Square(_) | Spec::Triangle(_) => Setting::Freq(freq(s)),
        Spec::LowPass(..) | Spec::HighPass(..) => {
            if s.chance(1, 2) {
                Setting::Freq(cutoff(s, true))
            } else {
                Setting::Resonance(resonance(s, true))
            }
        }
        Spec::BandPass(b) => {
            let other = band(s);
            match s.below(3) {
                1 if Bp::Fq(other.centre(), b.quality()).legal() => Setting::Freq(other.centre()),
                2 if Bp::Fq(b.centre(), other.quality()).legal() => Setting::Quality(other.quality()),
                _ => {
                    let (a, b) = corners(s);
                    Setting::Corners(a, b)
                }
            }
        }
        Spec::Wav { .. } | Spec::Resampler { .. } => Setting::Speed(speed(s)),
        Spec::Gain(_) => Setting::Factor(amp(s)),
        Spec::Adsr { .. } => Setting::Release,
        _ => return None,
    })
}

impl Generator for Obj {
    fn process(&mut self) -> f32 {
        self.step(0.0)
    }
}

impl Modifier for Obj {
    fn process(&mut self, x: f32) -> f32 {
        self.step(x)
    }
}

pub fn gen_spec(s: &mut Src, max: usize) -> Spec {
    loop {
        let g = spec(s, max);
        if g.is_generator() {
            return g;
        }
        if s.log.len() > 5000 {
            return Spec::Zero;
        }
    }
}

pub fn mod_spec(s: &mut Src, max: usize) -> Spec {
    loop {
        let g = spec(s, max);
        if !g.is_generator() {
            return g;
        }
        if s.log.len() > 5000 {
            return Spec::Pass;
        }
    }
}
