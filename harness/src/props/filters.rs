//! C19-C26: modifiers; C35: their stability.

use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use crate::kinds::*;
use bae_rs::generators::{Generator, Zero};
use bae_rs::modifiers::*;
use std::f64::consts::PI;
use std::time::Duration;

const FS: f64 = 48_000.0;

// ------------------------------------------------------------------------ delay

/// A length in samples as exact as a Duration states it, and what it may be
/// rounded to.
fn rounded(ns: u64) -> Vec<usize> {
    let num = ns as u128 * 48_000; // in 1e-9 samples
    let k = (num / 1_000_000_000) as usize;
    let f = (num % 1_000_000_000) as f64 / 1e9;
    if (f - 0.5).abs() < 1e-6 {
        vec![k, k + 1]
    } else if f < 0.5 {
        vec![k]
    } else {
        vec![k + 1]
    }
}

#[derive(Debug, Clone)]
enum Input {
    Sig(Signal),
    /// Arbitrary bit patterns.
    Bits(Vec<f32>),
    /// Distinct values 1, 2, 3, ... so that every sample is identifiable.
    Count(usize),
}

fn input(s: &mut Src, max: usize, bits: bool) -> Input {
    match s.below(4) {
        0 if bits => Input::Bits(s.list(0, 60, any_f32)),
        1 => Input::Count(1 + s.size(max)),
        _ => Input::Sig(signal(s, max)),
    }
}

fn samples(parts: &[Input]) -> Vec<f32> {
    let mut v = Vec::new();
    for p in parts {
        match p {
            Input::Sig(g) => v.extend(render(g)),
            Input::Bits(b) => v.extend_from_slice(b),
            Input::Count(n) => v.extend((0..*n).map(|i| (i % 8_000_000 + 1) as f32)),
        }
    }
    v
}

#[derive(Debug)]
struct DelayCase {
    ns: u64,
    parts: Vec<Input>,
}

fn gen_delay(s: &mut Src) -> DelayCase {
    let ns = nanos(s, 3000);
    let max = 1 + (ns as f64 / 1e9 * FS * 2.5) as usize;
    DelayCase { ns, parts: s.list(1, 5, |s| input(s, max, true)) }
}

/// Whole seconds, and tenths and hundredths of one.
fn even_time(s: &mut Src) -> u64 {
    match s.below(3) {
        0 => s.int(1, 4) as u64 * 1_000_000_000,
        1 => s.int(1, 25) as u64 * 100_000_000,
        _ => s.int(1, 150) as u64 * 10_000_000,
    }
}

fn gen_delay_long(s: &mut Src) -> DelayCase {
    let ns = if s.chance(1, 3) { even_time(s) } else { s.logu(1e7, 1.2e10) as u64 };
    let n = (ns as f64 / 1e9 * FS) as usize;
    DelayCase { ns, parts: vec![Input::Count(n + s.us(1, n + 1000)), Input::Sig(vec![Seg::Noise(s.below(1000), 1.0, n.min(200_000) + 10)])] }
}

/// More samples than single precision or 16 bits can count.
fn gen_delay_huge(s: &mut Src) -> DelayCase {
    let n = s.pick(&[65_536usize, 1 << 20, 3_000_000, (1 << 24) + 1]) + s.us(0, 1000);
    let ns = ((n as f64 + s.uni(-0.45, 0.45)) / FS * 1e9) as u64;
    DelayCase { ns, parts: vec![Input::Count(n + s.us(1, 200_000))] }
}

fn gen_echo_rests(s: &mut Src) -> EchoCase {
    let g = match s.below(4) {
        0 => s.pick(&[1.0, -1.0, 1.0 - 1e-6, -1.0 + 1e-5]),
        1 => 1.0 - s.logu(1e-7, 1e-2),
        _ => s.uni(-1.0, 1.0),
    };
    EchoCase { ns: s.logu(2.1e4, 2e9) as u64, g, parts: vec![Input::Sig(rests(s, 3_600_000))] }
}

fn gen_delay_rests(s: &mut Src) -> DelayCase {
    DelayCase { ns: s.logu(1e3, 2e10) as u64, parts: vec![Input::Sig(rests(s, 3_600_000))] }
}

fn gen_echo_minutes(s: &mut Src) -> EchoCase {
    let n = s.us(3_000_000, 8_000_000);
    EchoCase { ns: s.logu(2.1e4, 1e8) as u64, g: s.uni(-1.0, 1.0), parts: vec![Input::Sig(vec![Seg::Noise(s.below(1 << 16), 1.0, n)])] }
}

fn gen_delay_minutes(s: &mut Src) -> DelayCase {
    DelayCase { ns: s.logu(1e3, 1e8) as u64, parts: vec![Input::Sig(vec![Seg::Noise(s.below(1 << 16), 1.0, s.us(3_000_000, 8_000_000))])] }
}

fn gen_echo_huge(s: &mut Src) -> EchoCase {
    let n = s.pick(&[65_536usize, 1 << 20, 1 << 21, 3_000_000]) + s.us(0, 1000);
    let ns = ((n as f64 + s.uni(-0.45, 0.45)) / FS * 1e9) as u64;
    EchoCase { ns, g: s.uni(-1.0, 1.0), parts: vec![Input::Sig(vec![Seg::Noise(s.below(1 << 16), 1.0, 2 * n + s.us(1, 50_000))])] }
}

fn run_delay(c: &DelayCase, obs: &mut Obs) -> Res {
    let mut d = Delay::new(Duration::from_nanos(c.ns));
    let may = rounded(c.ns);
    let report = |d: &Delay| -> Result<usize, String> {
        let t = d.get_delay().as_secs_f64();
        may.iter()
            .copied()
            .find(|k| (t - *k as f64 / FS).abs() <= 2.5e-9)
            .ok_or_else(|| format!("built with {} ns, reports {t:?} s, expected {:?} samples", c.ns, may))
    };
    let k = report(&d)?;
    let x = samples(&c.parts);
    for n in 0..x.len() {
        let y = d.process(x[n]);
        let want = if n >= k { x[n - k] } else { 0.0 };
        ensure!(
            y.to_bits() == want.to_bits() || (y == 0.0 && n < k),
            "delay of {k} samples ({} ns): output {n} is {y:?}, expected {want:?}",
            c.ns
        );
    }
    ensure!(report(&d)? == k, "the delay reported changed from {k} samples to {:?}", d.get_delay());
    obs.compared += x.len() as u64;
    obs.label_if(k == 0, "no delay");
    obs.label_if(x.iter().any(|x| !x.is_finite()), "special values");
    obs.label_if(x.len() > 2 * k, "ring used twice");
    obs.nontrivial = x.len() > k;
    Ok(())
}

// ------------------------------------------------------------------------- echo

#[derive(Debug)]
struct EchoCase {
    ns: u64,
    g: f64,
    parts: Vec<Input>,
}

fn gen_echo(s: &mut Src) -> EchoCase {
    let ns = nanos(s, 2000);
    let max = 1 + (ns as f64 / 1e9 * FS * 3.0) as usize;
    let g = if s.chance(1, 12) { s.pick(&[3.0, -10.0, 1e6, 1e-6, 1e-30, -1e10]) } else { echo_gain(s) };
    EchoCase { ns, g, parts: s.list(1, 4, |s| input(s, max, false)) }
}

fn gen_echo_long(s: &mut Src) -> EchoCase {
    let ns = if s.chance(1, 3) { even_time(s) } else { s.logu(1e6, 3e9) as u64 };
    let n = (ns as f64 / 1e9 * FS) as usize;
    let seed = s.below(1 << 16);
    EchoCase { ns, g: s.uni(-1.0, 1.0), parts: vec![Input::Sig(vec![Seg::Noise(seed, 1.0, 3 * n + 1000), Seg::Const(0.0, n)])] }
}

fn run_echo(c: &EchoCase, obs: &mut Obs) -> Res {
    let mut e = Echo::new(Duration::from_nanos(c.ns), c.g);
    let x = samples(&c.parts);
    let may = rounded(c.ns);
    let mut y: Vec<f32> = Vec::with_capacity(x.len());
    let mut cand: Vec<usize> = may.iter().copied().filter(|d| *d >= 1).collect();
    let short = cand.len() < may.len();
    for n in 0..x.len() {
        let out = e.process(x[n]);
        y.push(out);
        if short {
            // Only required to be accepted.
            continue;
        }
        if !out.is_finite() || out.abs() > 1e35 || x[n].abs() > 1e35 {
            // overflow, which the recurrence would show as well
            let big = cand.iter().any(|d| n >= *d && (c.g * y[n - d] as f64).abs() > 1e34) || x[n].abs() > 1e34;
            ensure!(big, "output {n} is {out:?}, with no large value before it");
            obs.label("overflowed");
            break;
        }
        let mut why = String::new();
        cand.retain(|&d| {
            let back = if n >= d { y[n - d] as f64 } else { 0.0 };
            let want = x[n] as f64 + c.g * back;
            let tol = 6e-7 * (x[n].abs() as f64 + (c.g * back).abs()) + 1e-37;
            let ok = (out as f64 - want).abs() <= tol;
            if !ok {
                why = format!("delay {d}: y[{n}] is {out:?}, x[{n}] + g*y[{}] is {want:?} (g = {:?})", n as i64 - d as i64, c.g);
            }
            ok
        });
        ensure!(!cand.is_empty(), "{} ns, {why}", c.ns);
        obs.compared += 1;
    }
    obs.label_if(short, "shorter than half a sample");
    obs.label_if(c.g.abs() >= 1.0, "growing");
    obs.nontrivial = cand.iter().any(|d| x.len() > *d) && x.iter().any(|x| *x != 0.0) && c.g != 0.0;
    Ok(())
}

// --------------------------------------------------- third-order low and high pass

/// s^k-form filter discretised by backward differences, run on differences of
/// the signal so that it is well conditioned at every cutoff.
pub struct Third {
    pub high: bool,
    pub fc: f64,
    pub r: f64,
    x: [f64; 3],
    y: f64,
    /// First and second difference of the output at the last sample.
    d1: f64,
    d2: f64,
}

impl Third {
    pub fn new(high: bool, fc: f64, r: f64) -> Third {
        Third { high, fc: fc.min(CAP), r: r.min(1.0).max(0.0), x: [0.0; 3], y: 0.0, d1: 0.0, d2: 0.0 }
    }
    pub fn t(&self) -> f64 {
        2.0 * PI * self.fc / FS
    }
    pub fn step(&mut self, x: f64) -> f64 {
        let t = self.t();
        let k = 1.0 - 2.0 * (PI * (4.0 - self.r) / 6.0).cos();
        // With D the difference operator: D^3 y + k t D^2 y + k t^2 D y + t^3 y
        // = t^3 x (low pass) or D^3 x (high pass), solved for D y.
        let drive = if self.high {
            ((x - self.x[0]) - (self.x[0] - self.x[1])) - ((self.x[0] - self.x[1]) - (self.x[1] - self.x[2])) - t * t * t * self.y
        } else {
            t * t * t * (x - self.y)
        };
        let d = (drive + (1.0 + k * t) * self.d1 + self.d2) / (1.0 + k * t + k * t * t + t * t * t);
        self.d2 = d - self.d1;
        self.d1 = d;
        self.y += d;
        self.x = [x, self.x[0], self.x[1]];
        self.y
    }
}

#[derive(Debug, Clone)]
enum FOp {
    Run(Signal),
    Set(Setting),
}

#[derive(Debug, Clone)]
struct FCase {
    spec: Spec,
    ops: Vec<FOp>,
}

fn gen_fops(s: &mut Src, spec: Spec, max: usize) -> FCase {
    let mut cur = spec.clone();
    let mut ops = s.list(0, 8, |s| match setting(s, &cur) {
        Some(t) if s.chance(1, 2) => {
            cur.apply(&t);
            FOp::Set(t)
        }
        _ => FOp::Run(signal(s, max)),
    });
    ops.push(FOp::Run(signal(s, max)));
    FCase { spec, ops }
}

fn gen_low(s: &mut Src) -> FCase {
    let sp = Spec::LowPass(cutoff(s, true), resonance(s, true));
    gen_fops(s, sp, 800)
}
fn gen_high(s: &mut Src) -> FCase {
    let sp = Spec::HighPass(cutoff(s, true), resonance(s, true));
    gen_fops(s, sp, 800)
}
fn gen_low_long(s: &mut Src) -> FCase {
    let sp = Spec::LowPass(cutoff(s, true), resonance(s, true));
    gen_fops(s, sp, 120_000)
}
fn gen_high_long(s: &mut Src) -> FCase {
    let sp = Spec::HighPass(cutoff(s, true), resonance(s, true));
    gen_fops(s, sp, 120_000)
}

/// Settings changed every few samples.
fn gen_sweep(s: &mut Src, spec: Spec) -> FCase {
    let mut cur = spec.clone();
    let n = 1 + s.size(60);
    let mut ops = Vec::new();
    for _ in 0..n {
        if let Some(t) = setting(s, &cur) {
            cur.apply(&t);
            ops.push(FOp::Set(t));
        }
        let len = s.us(1, 12);
        let seed = s.below(1 << 16);
        ops.push(FOp::Run(vec![if s.chance(1, 4) { Seg::Const(1.0, len) } else { Seg::Noise(seed, 1.0, len) }]));
    }
    FCase { spec, ops }
}

fn gen_low_sweep(s: &mut Src) -> FCase {
    let sp = Spec::LowPass(cutoff(s, true), resonance(s, true));
    gen_sweep(s, sp)
}
fn gen_high_sweep(s: &mut Src) -> FCase {
    let sp = Spec::HighPass(cutoff(s, true), resonance(s, true));
    gen_sweep(s, sp)
}

/// Minutes of samples.
fn gen_fminutes(s: &mut Src, spec: Spec) -> FCase {
    let mut ops = vec![FOp::Run(vec![Seg::Noise(s.below(1 << 16), 1.0, s.us(3_000_000, 8_000_000))])];
    let mut cur = spec.clone();
    for _ in 0..s.below(3) {
        if let Some(t) = setting(s, &cur) {
            cur.apply(&t);
            ops.push(FOp::Set(t));
            ops.push(FOp::Run(signal(s, 100_000)));
        }
    }
    FCase { spec, ops }
}

fn gen_frests(s: &mut Src, spec: Spec) -> FCase {
    let mut ops = vec![FOp::Run(rests(s, 3_000_000))];
    let mut cur = spec.clone();
    for _ in 0..s.below(3) {
        if let Some(t) = setting(s, &cur) {
            cur.apply(&t);
            ops.push(FOp::Set(t));
            ops.push(FOp::Run(rests(s, 300_000)));
        }
    }
    FCase { spec, ops }
}

/// Thousands of changes of the settings.
fn gen_glide(s: &mut Src, spec: Spec) -> FCase {
    let n = s.us(1_000, 6_000);
    let (lo, hi) = (s.uni(300.0, 3000.0), s.uni(300.0, 9000.0));
    let mut r = Rng::new(s.below(1 << 16));
    let wild = s.chance(1, 2);
    let mut ops = Vec::new();
    for i in 0..n {
        let x = if wild { r.unit() } else { i as f64 / n as f64 };
        let f = lo * (hi / lo).powf(x);
        let other = r.next() >> 40 & 3 == 0;
        ops.push(FOp::Set(match (&spec, other) {
            (Spec::BandPass(_), false) => Setting::Corners(f * 0.5, f * (1.1 + r.unit())),
            (_, true) if !matches!(spec, Spec::BandPass(_)) => Setting::Resonance(r.unit() * 0.8),
            _ => Setting::Freq(f),
        }));
        ops.push(FOp::Run(vec![Seg::Noise(i as u64, 1.0, 1 + (r.next() >> 40) as usize % 3)]));
    }
    ops.push(FOp::Run(vec![Seg::Noise(1, 1.0, 100)]));
    FCase { spec, ops }
}

fn gen_low_minutes(s: &mut Src) -> FCase {
    let sp = Spec::LowPass(s.logu(20.0, 24_000.0), resonance(s, true));
    gen_fminutes(s, sp)
}
fn gen_low_rests(s: &mut Src) -> FCase {
    let sp = Spec::LowPass(s.logu(20.0, 24_000.0), resonance(s, true));
    gen_frests(s, sp)
}
fn gen_high_rests(s: &mut Src) -> FCase {
    let sp = Spec::HighPass(s.logu(20.0, 24_000.0), resonance(s, true));
    gen_frests(s, sp)
}
fn gen_band_rests(s: &mut Src) -> FCase {
    let sp = Spec::BandPass(band(s));
    gen_frests(s, sp)
}
fn gen_high_minutes(s: &mut Src) -> FCase {
    let sp = Spec::HighPass(s.logu(20.0, 24_000.0), resonance(s, true));
    gen_fminutes(s, sp)
}
fn gen_band_minutes(s: &mut Src) -> FCase {
    let sp = Spec::BandPass(band(s));
    gen_fminutes(s, sp)
}
fn gen_low_glide(s: &mut Src) -> FCase {
    gen_glide(s, Spec::LowPass(1000.0, 0.5))
}
fn gen_high_glide(s: &mut Src) -> FCase {
    gen_glide(s, Spec::HighPass(1000.0, 0.5))
}
fn gen_band_glide(s: &mut Src) -> FCase {
    gen_glide(s, Spec::BandPass(Bp::Fq(1000.0, 0.7)))
}

fn same(a: f64, b: f64, rel: f64) -> bool {
    a == b || (a - b).abs() <= rel * a.abs().max(b.abs())
}

fn run_third(c: &FCase, obs: &mut Obs) -> Res {
    let (high, fc, r) = match c.spec {
        Spec::LowPass(f, r) => (false, f, r),
        Spec::HighPass(f, r) => (true, f, r),
        _ => unreachable!(),
    };
    let mut spec = c.spec.clone();
    if let Spec::LowPass(f, r) | Spec::HighPass(f, r) = &mut spec {
        *f = f.min(CAP);
        *r = r.min(1.0).max(0.0);
    }
    let mut o = c.spec.build();
    let mut m = Third::new(high, fc, r);
    let mut tmin = m.t();
    let (mut scale, mut n) = (0.0f64, 0u64);
    let mut sets = 0;
    let mut driven = false;
    let report = |o: &Obj, m: &Third| -> Res {
        let rep = o.reported();
        ensure!(same(rep[0].1, m.fc, 1e-12), "the cutoff is {:?} Hz, reported {:?}", m.fc, rep[0].1);
        ensure!((rep[1].1 - m.r).abs() <= 1e-12, "the resonance is {:?}, reported {:?}", m.r, rep[1].1);
        Ok(())
    };
    report(&o, &m)?;
    for op in &c.ops {
        match op {
            FOp::Set(t) => {
                o.set(t);
                spec.apply(t);
                if let Spec::LowPass(f, r) | Spec::HighPass(f, r) = spec {
                    m.fc = f;
                    m.r = r;
                }
                tmin = tmin.min(m.t());
                report(&o, &m)?;
                sets += (n > 0) as u32;
            }
            FOp::Run(sig) => {
                for x in render(sig) {
                    let want = m.step(x as f64);
                    let y = o.step(x) as f64;
                    scale = scale.max(want.abs()).max(x.abs() as f64);
                    driven |= x != 0.0;
                    n += 1;
                    let t2 = tmin * tmin;
                    let tol = scale * (4e-7 + 2e-15 / (t2 * tmin) + 3e-16 / t2 * (n as f64).min(4.0 / t2)) + 1e-37;
                    let d = (y - want).abs();
                    ensure!(
                        d <= tol,
                        "sample {n} at {:?} Hz, resonance {:?}: got {y:?}, expected {want:?} (tolerance {tol:e})",
                        m.fc,
                        m.r
                    );
                    obs.compared += 1;
                }
            }
        }
    }
    obs.label_if(sets > 0, "settings changed mid-run");
    obs.label_if(tmin < 0.013, "below 100 Hz");
    obs.label_if(m.r == 1.0, "full resonance");
    obs.nontrivial = driven;
    Ok(())
}

/// Response to a constant: unit gain for the low pass, none for the high pass.
#[derive(Debug)]
struct DcCase {
    high: bool,
    fc: f64,
    r: f64,
    level: f32,
}

fn gen_dc(s: &mut Src, high: bool) -> DcCase {
    DcCase { high, fc: s.logu(40.0, 24_000.0), r: s.unit() * 0.98, level: amp(s) }
}
fn gen_dc_low(s: &mut Src) -> DcCase {
    gen_dc(s, false)
}
fn gen_dc_high(s: &mut Src) -> DcCase {
    gen_dc(s, true)
}

fn run_dc(c: &DcCase, obs: &mut Obs) -> Res {
    let sp = if c.high { Spec::HighPass(c.fc, c.r) } else { Spec::LowPass(c.fc, c.r) };
    let mut o = sp.build();
    let n = (18.0 / decay_third(c.fc, c.r)).min(400_000.0) as usize + 50;
    let mut y = 0.0;
    for _ in 0..n {
        y = o.step(c.level);
    }
    let want = if c.high { 0.0 } else { c.level as f64 };
    obs.compared += 1;
    obs.nontrivial = c.level != 0.0;
    ensure!(
        (y as f64 - want).abs() <= 1e-4 * c.level.abs() as f64,
        "a constant {:?} settles at {y:?} after {n} samples, expected {want:?} ({:?} Hz, resonance {:?})",
        c.level,
        c.fc,
        c.r
    );
    Ok(())
}

/// Decay per sample (-ln of the largest pole radius).
fn decay_third(fc: f64, r: f64) -> f64 {
    let t = 2.0 * PI * fc.min(CAP) / FS;
    let k1 = -2.0 * (PI * (4.0 - r) / 6.0).cos();
    (0.5 * (k1 * t + t * t).ln_1p()).min(t.ln_1p())
}

// -------------------------------------------------------------------- band pass

pub struct Band {
    a: f64,
    bl: f64,
    bh: f64,
    x: [f64; 2],
    y: [f64; 2],
}

impl Band {
    pub fn new(bp: &Bp) -> Band {
        let mut b = Band { a: 0.0, bl: 0.0, bh: 0.0, x: [0.0; 2], y: [0.0; 2] };
        b.set(bp);
        b
    }
    pub fn set(&mut self, bp: &Bp) {
        let (lower, upper) = bp.corners();
        let tl = (PI * upper / FS).tan();
        let th = (PI * lower / FS).tan();
        self.a = tl / (1.0 + tl) / (1.0 + th);
        self.bl = (1.0 - tl) / (1.0 + tl);
        self.bh = (1.0 - th) / (1.0 + th);
    }
    pub fn step(&mut self, x: f64) -> f64 {
        // (1 - bl z)(1 - bh z) y = a (1 + z)(1 - z) x
        let y = self.a * (x - self.x[1]) + (self.bl + self.bh) * self.y[0] - self.bl * self.bh * self.y[1];
        self.x = [x, self.x[0]];
        self.y = [y, self.y[0]];
        y
    }
}

fn gen_band(s: &mut Src) -> FCase {
    let sp = Spec::BandPass(band(s));
    gen_fops(s, sp, 800)
}
fn gen_band_long(s: &mut Src) -> FCase {
    let sp = Spec::BandPass(band(s));
    gen_fops(s, sp, 120_000)
}
fn gen_band_sweep(s: &mut Src) -> FCase {
    let sp = Spec::BandPass(band(s));
    gen_sweep(s, sp)
}

fn check_band(o: &Obj, bp: &Bp) -> Res {
    let rep = o.reported();
    let (f, q, lo, up) = (rep[0].1, rep[1].1, rep[2].1, rep[3].1);
    let eps = 1e-9;
    ensure!(same(f, bp.centre(), eps), "{bp:?}: centre {f:?} Hz, expected {:?}", bp.centre());
    ensure!(same(q, bp.quality(), eps), "{bp:?}: quality {q:?}, expected {:?}", bp.quality());
    ensure!(lo <= up, "{bp:?}: corners {lo:?} and {up:?} are not ascending");
    let (wl, wu) = bp.corners();
    // the lower corner is a difference of numbers of the upper one's size
    ensure!((lo - wl).abs() <= 1e-9 * wl + 1e-13 * wu, "{bp:?}: lower corner {lo:?}, expected {wl:?}");
    ensure!(same(up, wu, eps), "{bp:?}: upper corner {up:?}, expected {wu:?}");
    ensure!(same((lo * up).sqrt(), f, 1e-9), "{bp:?}: centre {f:?} is not the geometric mean of {lo:?} and {up:?}");
    ensure!(
        (f / q - (up - lo)).abs() <= 1e-9 * (up - lo) + 1e-12 * up,
        "{bp:?}: quality {q:?} is not centre {f:?} over the difference of {lo:?} and {up:?}"
    );
    Ok(())
}

fn run_band(c: &FCase, obs: &mut Obs) -> Res {
    let mut bp = match &c.spec {
        Spec::BandPass(b) => b.clone(),
        _ => unreachable!(),
    };
    let mut o = c.spec.build();
    let mut spec = c.spec.clone();
    let mut m = Band::new(&bp);
    check_band(&o, &bp)?;
    let (mut scale, mut n, mut sets) = (0.0f64, 0u64, 0);
    let mut driven = false;
    for op in &c.ops {
        match op {
            FOp::Set(t) => {
                o.set(t);
                spec.apply(t);
                if let Spec::BandPass(b) = &spec {
                    bp = b.clone();
                }
                m.set(&bp);
                check_band(&o, &bp)?;
                sets += (n > 0) as u32;
                obs.compared += 6;
            }
            FOp::Run(sig) => {
                for x in render(sig) {
                    let want = m.step(x as f64);
                    let y = o.step(x) as f64;
                    scale = scale.max(x.abs() as f64).max(want.abs());
                    driven |= x != 0.0;
                    n += 1;
                    let tol = scale * 1e-6 + 1e-37;
                    ensure!(
                        (y - want).abs() <= tol,
                        "sample {n}, corners {:?}: got {y:?}, expected {want:?} (tolerance {tol:e})",
                        bp.corners()
                    );
                    obs.compared += 1;
                }
            }
        }
    }
    obs.label_if(sets > 0, "settings changed mid-run");
    obs.label_if(matches!(c.spec, Spec::BandPass(Bp::Fq(..))), "built from centre and quality");
    obs.label_if(bp.quality() > 50.0, "narrow");
    obs.label_if(bp.quality() < 0.2, "wide");
    obs.nontrivial = driven;
    Ok(())
}

// --------------------------------------------------------------------- envelope

#[derive(Debug)]
struct EnvCase {
    lower: f32,
    upper: f32,
    sig: Signal,
    /// With a seed, every few inputs are the previous output, of either sign.
    back: Option<u64>,
}

fn gen_env(s: &mut Src) -> EnvCase {
    let (lower, upper) = if s.chance(1, 8) {
        (s.logu(0.5, 23_990.0) as f32, s.logu(0.5, 23_990.0) as f32)
    } else {
        env_freqs(s)
    };
    let mut sig = signal(s, 1000);
    if s.chance(1, 3) {
        let k = s.size(500);
        sig.push(Seg::Const(0.0, k));
        sig.extend(signal(s, 300));
    }
    let back = if s.chance(1, 4) { Some(s.below(1 << 16)) } else { None };
    EnvCase { lower, upper, sig, back }
}

fn gen_env_minutes(s: &mut Src) -> EnvCase {
    let mut c = gen_env(s);
    c.sig.insert(0, Seg::Noise(s.below(1 << 16), 1.0, s.us(3_000_000, 8_000_000)));
    c
}

fn gen_env_rests(s: &mut Src) -> EnvCase {
    let mut c = gen_env(s);
    c.sig = rests(s, 3_600_000);
    c
}

fn run_env(c: &EnvCase, obs: &mut Obs) -> Res {
    let mut e = Envelope::new(c.lower, c.upper);
    let co = |f: f32| {
        let t = (PI * f as f64 / FS).tan();
        (t / (1.0 + t), (1.0 - t) / (1.0 + t))
    };
    let (up, down) = (co(c.upper), co(c.lower));
    let (mut x1, mut y1) = (0.0f64, 0.0f64);
    let (mut rises, mut falls) = (0, 0);
    let mut r = Rng::new(c.back.unwrap_or(0));
    for (n, mut x) in render(&c.sig).into_iter().enumerate() {
        if c.back.is_some() && y1 != 0.0 {
            match r.next() >> 40 & 7 {
                0 => x = y1 as f32,
                1 => x = -y1 as f32,
                _ => (),
            }
        }
        let y = e.process(x) as f64;
        let x = x.abs() as f64;
        let near = x != y1 && (x - y1).abs() <= 1e-6 * (x + y1.abs());
        obs.label_if(x == y1 && x != x1, "exactly at the level");
        let ok = |(a, b): (f64, f64)| {
            let want = a * (x + x1) + b * y1;
            (y - want).abs() <= (1.5e-6 * a + 4e-7) * (x + x1 + y1.abs()) + 1e-37
        };
        let rising = x > y1;
        let fine = if near { ok(up) || ok(down) } else if rising { ok(up) } else { ok(down) };
        ensure!(
            fine,
            "sample {n}: |x| {x:?} after {x1:?}, output {y:?} after {y1:?}, expected {:?} ({} Hz)",
            if rising { up.0 * (x + x1) + up.1 * y1 } else { down.0 * (x + x1) + down.1 * y1 },
            if rising { c.upper } else { c.lower }
        );
        if x > 0.0 && x > y1 {
            rises += 1
        }
        if x < y1 {
            falls += 1
        }
        x1 = x;
        y1 = y;
        obs.compared += 1;
    }
    obs.label_if(rises > 0 && falls > 0, "attack and release");
    obs.nontrivial = rises > 0 && falls > 0 && c.lower != c.upper;
    Ok(())
}

/// Sign invariance, and what a constant settles at.
#[derive(Debug)]
struct EnvMeta {
    lower: f32,
    upper: f32,
    sig: Signal,
    flips: u64,
    level: f32,
}

fn gen_env_meta(s: &mut Src) -> EnvMeta {
    let (a, b) = env_freqs(s);
    EnvMeta { lower: a.max(5.0), upper: b.max(5.0), sig: signal(s, 300), flips: s.below(1 << 16), level: amp(s) }
}

fn run_env_meta(c: &EnvMeta, obs: &mut Obs) -> Res {
    let mut e = Envelope::new(c.lower, c.upper);
    let mut f = Envelope::new(c.lower, c.upper);
    let mut r = Rng::new(c.flips);
    let mut peak = 0.0f64;
    for (n, x) in render(&c.sig).into_iter().enumerate() {
        let y = e.process(x);
        peak = peak.max(x.abs() as f64).max(y.abs() as f64);
        let z = f.process(if r.next() & 1 == 0 { x } else { -x });
        ensure!((y - z).abs() <= 1e-6 * y.abs().max(z.abs()), "sample {n}: {y:?}, with some signs flipped {z:?}");
        obs.compared += 1;
    }
    let mut z = Envelope::new(c.lower, c.upper);
    for n in 0..50 {
        let y = z.process(0.0);
        ensure!(y == 0.0, "sample {n} of silence gives {y:?}");
    }
    let t = (PI * c.lower.min(c.upper) as f64 / FS).tan();
    let tu = (PI * c.lower.max(c.upper) as f64 / FS).tan();
    // decay per sample of the slower of the two one-pole filters
    let k = |t: f64| -(((1.0 - t) / (1.0 + t)).abs().max(1e-3)).ln();
    let n = (16.0 / k(t).min(k(tu))) as usize + 100;
    if n > 60_000 {
        obs.label("settling not run");
    } else {
        let mut y = 0.0;
        for _ in 0..n {
            y = e.process(c.level);
        }
        let a = t / (1.0 + t);
        let want = c.level.abs() as f64;
        ensure!(
            (y as f64 - want).abs() <= want * (1e-4 + 5e-7 / a) + 2e-6 * peak,
            "a constant {:?} settles at {y:?} after {n} samples",
            c.level
        );
        obs.label("settled");
    }
    obs.nontrivial = c.sig.iter().any(|s| s.len() > 2);
    Ok(())
}

// ------------------------------------------------------------------------- ADSR

#[derive(Debug, Clone)]
enum AOp {
    Run(Signal),
    /// So many samples of a constant input.
    Hold(f32, usize),
    Release,
}

#[derive(Debug, Clone)]
struct ACase {
    a: u64,
    d: u64,
    s: f64,
    r: u64,
    ops: Vec<AOp>,
}

fn stage(s: &mut Src, max: usize) -> u64 {
    match s.below(6) {
        0 => 0,
        1 => s.below(50_000), // around and below a sample
        _ => nanos(s, max),
    }
}

fn gen_adsr(s: &mut Src) -> ACase {
    let max = s.pick(&[60, 600, 4000]);
    let (a, d, r) = (stage(s, max), stage(s, max), stage(s, max));
    let len = |s: &mut Src, t: u64| {
        let n = (t as f64 / 1e9 * FS) as usize;
        match s.below(4) {
            0 => s.size(2 * max),
            1 => n,
            2 => n + 1 + s.size(3),
            _ => s.us(0, n + 2),
        }
    };
    let mut ops = Vec::new();
    let t = [a, a + d, d, r, 0];
    for _ in 0..s.us(1, 5) {
        let which = s.pick(&t);
        let n = len(s, which);
        ops.push(match s.below(4) {
            0 => AOp::Run(signal(s, n.max(1))),
            1 if !ops.is_empty() => AOp::Release,
            _ => AOp::Hold(s.pick(&[1.0, -1.0, 0.5, 100.0, 1e-3]), n),
        });
    }
    if s.chance(3, 4) {
        ops.push(AOp::Release);
        let n = s.us(0, max + 40);
        ops.push(AOp::Hold(1.0, n));
        for _ in 0..s.below(3) {
            ops.push(AOp::Release);
            let n = len(s, r);
            ops.push(AOp::Hold(1.0, n));
        }
    }
    ACase { a, d, s: sustain(s), r, ops }
}

fn gen_adsr_long(s: &mut Src) -> ACase {
    let m = |s: &mut Src| match s.below(3) {
        0 => s.logu(1e9, 6e10) as u64,
        1 => s.int(1, 60) as u64 * 1_000_000_000,
        _ => s.int(1, 2000) as u64 * 1_000_000,
    };
    let (a, d, r) = (m(s), m(s), m(s));
    let n = |t: u64| (t as f64 / 1e9 * FS) as usize;
    let total = n(a) + n(d);
    let cut = if s.chance(1, 3) { s.us(0, total) } else { total + 1000 };
    ACase { a, d, s: sustain(s), r, ops: vec![AOp::Hold(1.0, cut), AOp::Release, AOp::Hold(1.0, n(r) + 1000), AOp::Release, AOp::Hold(1.0, 1000)] }
}

/// Long silence at the input in any stage.
fn gen_adsr_rests(s: &mut Src) -> ACase {
    let m = |s: &mut Src| if s.chance(1, 3) { stage(s, 4000) } else { s.logu(1e6, 6e10) as u64 };
    let (a, d, r) = (m(s), m(s), m(s));
    let mut ops = vec![AOp::Run(rests(s, 3_000_000))];
    if s.chance(3, 4) {
        ops.push(AOp::Release);
        ops.push(AOp::Run(rests(s, 2_000_000)));
    }
    ACase { a, d, s: sustain(s), r, ops }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Stage {
    Attack,
    Decay,
    Sustain,
    Release,
    Stopped,
}

#[derive(Clone, Copy, Debug)]
struct Env {
    st: Stage,
    /// Gain where the stage began and steps taken in it.
    from: f64,
    k: f64,
    g: f64,
}

const AEPS: f64 = 1e-8;

fn run_adsr(c: &ACase, obs: &mut Obs) -> Res {
    let dur = Duration::from_nanos;
    let mut o = ADSR::new(dur(c.a), dur(c.d), c.s, dur(c.r));
    let level = 10f64.powf(c.s.min(0.0) / 20.0);
    let steps = |ns: u64| ns as f64 / 1e9 * FS;
    let (na, nd, nr) = (steps(c.a), steps(c.d), steps(c.r));
    let mut cand = vec![Env { st: Stage::Attack, from: 0.0, k: 0.0, g: 0.0 }];
    let mut seen = [false; 5];
    let mut n = 0u64;
    let mut released = false;
    let mut nonzero = 0u64;
    for op in &c.ops {
        let input = match op {
            AOp::Release => {
                o.release();
                released = true;
                for e in &mut cand {
                    if e.st != Stage::Release && e.st != Stage::Stopped {
                        *e = Env { st: Stage::Release, from: e.g, k: 0.0, g: e.g };
                    }
                }
                continue;
            }
            AOp::Run(sig) => render(sig),
            AOp::Hold(x, n) => vec![*x; *n],
        };
        for x in input {
            let y = o.process(x) as f64;
            let x = x as f64;
            let mut next: Vec<Env> = Vec::with_capacity(cand.len() + 1);
            for e in &cand {
                let mut e = *e;
                e.k += 1.0;
                // Completes (true), may complete within rounding (both).
                let step = |g: f64, rest: f64, instant: bool| -> (bool, bool) {
                    // rest: how far short of the end the stage is, <= 0 when over
                    let _ = g;
                    if instant {
                        (true, false)
                    } else {
                        (rest <= AEPS, rest > -AEPS)
                    }
                };
                match e.st {
                    Stage::Attack => {
                        let g = if na > 0.0 { e.k / na } else { f64::INFINITY };
                        let (done, not) = step(g, 1.0 - g, na == 0.0);
                        if done {
                            next.push(Env { st: Stage::Decay, from: 1.0, k: 0.0, g: 1.0 });
                        }
                        if not {
                            e.g = g;
                            next.push(e);
                        }
                    }
                    Stage::Decay => {
                        let g = if nd > 0.0 { 1.0 + (level - 1.0) * (e.k / nd) } else { level };
                        let (done, not) = step(g, g - level, nd == 0.0);
                        if done {
                            next.push(Env { st: Stage::Sustain, from: level, k: 0.0, g: level });
                        }
                        if not {
                            e.g = g;
                            next.push(e);
                        }
                    }
                    Stage::Sustain => next.push(e),
                    Stage::Release => {
                        let g = if nr > 0.0 { e.from - level * (e.k / nr) } else { 0.0 };
                        let (done, not) = step(g, g, nr == 0.0);
                        if done {
                            next.push(Env { st: Stage::Stopped, from: 0.0, k: 0.0, g: 0.0 });
                        }
                        if not {
                            e.g = g;
                            next.push(e);
                        }
                    }
                    Stage::Stopped => next.push(e),
                }
            }
            let tol = |g: f64| x.abs() * (3e-7 * g.abs() + 2.0 * AEPS) + 1e-44;
            let mut before = next.clone();
            next.retain(|e| (y - x * e.g).abs() <= tol(e.g) && (e.st != Stage::Stopped || y == 0.0));
            if next.is_empty() {
                before.truncate(3);
                return Err(format!(
                    "sample {n}: input {x:?} gives {y:?} (gain {:?}); possible: {:?}",
                    y / x,
                    before.iter().map(|e| (e.st, e.g)).collect::<Vec<_>>()
                ));
            }
            ensure!(y.abs() <= x.abs() * (1.0 + 1e-6), "sample {n}: gain {:?} is above 1", y / x);
            // merge equal possibilities
            next.dedup_by(|a, b| a.st == b.st && (a.g - b.g).abs() < 1e-13 && (a.k == b.k || a.st == Stage::Sustain || a.st == Stage::Stopped));
            if next.len() > 64 {
                next.truncate(64);
            }
            cand = next;
            seen[cand[0].st as usize] = true;
            nonzero += (x != 0.0) as u64;
            n += 1;
        }
    }
    obs.compared += n;
    obs.label_if(seen[2], "reached sustain");
    obs.label_if(released, "released");
    obs.label_if(seen[4], "released to the end");
    obs.label_if(c.a == 0 || c.d == 0 || c.r == 0, "a stage of no time");
    obs.nontrivial = nonzero >= 2;
    Ok(())
}

// ---------------------------------------------------- generic, gain, pass, zero

#[derive(Debug)]
struct GenericCase {
    zeros: Vec<(usize, f32)>,
    poles: Vec<(usize, f32)>,
    sig: Signal,
}

fn gen_generic(s: &mut Src) -> GenericCase {
    let far = s.pick(&[3, 12, 60, 1500]);
    let zeros = taps(s, 8, far);
    let far = s.pick(&[3, 12, 60, 1500]);
    let poles = if s.chance(1, 4) { taps(s, 8, far) } else { stable_poles(s) };
    GenericCase { zeros, poles, sig: signal(s, 3000) }
}

fn run_generic(c: &GenericCase, obs: &mut Obs) -> Res {
    let mut o = Generic::new(c.zeros.iter().copied().collect(), c.poles.iter().copied().collect());
    let x = render(&c.sig);
    let mut y: Vec<f32> = Vec::with_capacity(x.len());
    for n in 0..x.len() {
        let out = o.process(x[n]);
        let (mut want, mut size) = (0.0f64, 0.0f64);
        for (i, k) in &c.zeros {
            if n >= *i {
                let t = x[n - i] as f64 * *k as f64;
                want += t;
                size += t.abs();
            }
        }
        for (j, k) in &c.poles {
            if n >= 1 + *j {
                let t = y[n - 1 - j] as f64 * *k as f64;
                want += t;
                size += t.abs();
            }
        }
        if size > 1e30 {
            obs.label("overflowed");
            break;
        }
        ensure!(
            (out as f64 - want).abs() <= 2e-6 * size + 1e-37,
            "output {n} is {out:?}, the difference equation gives {want:?}"
        );
        y.push(out);
        obs.compared += 1;
    }
    let sorted = |v: &[(usize, f32)]| v.windows(2).all(|w| w[0].0 <= w[1].0);
    obs.label_if(!sorted(&c.zeros) || !sorted(&c.poles), "not in order");
    obs.label_if(c.zeros.is_empty() || c.poles.is_empty(), "an empty list");
    obs.label_if(c.zeros.iter().any(|z| z.0 >= 60) || c.poles.iter().any(|z| z.0 >= 60), "far back");
    obs.nontrivial = y.iter().any(|y| *y != 0.0);
    Ok(())
}

fn gen_generic_minutes(s: &mut Src) -> GenericCase {
    let sig = vec![Seg::Noise(s.below(1 << 16), 1.0, s.us(3_000_000, 6_000_000))];
    let mut poles = stable_poles(s);
    if s.chance(1, 4) {
        poles.clear();
    }
    GenericCase { zeros: taps(s, 3, 12), poles, sig }
}

fn gen_generic_rests(s: &mut Src) -> GenericCase {
    let c = gen_generic_minutes(s);
    GenericCase { sig: rests(s, 3_600_000), ..c }
}

/// Taps further back than 16 bits can count, or hundreds of them.
fn gen_generic_far(s: &mut Src) -> GenericCase {
    let sparse = |s: &mut Src| {
        let far = s.pick(&[3usize, 300, 5_000, 70_000, 300_000]);
        taps(s, 5, far)
    };
    let dense = |s: &mut Src| {
        let (n, far) = (s.us(60, 700), s.pick(&[20usize, 260, 800]));
        (0..n).map(|_| (s.us(0, far), s.uni(-1.0, 1.0) as f32 / n as f32)).collect::<Vec<_>>()
    };
    let (zeros, poles) = if s.chance(1, 2) { (sparse(s), sparse(s)) } else { (dense(s), dense(s)) };
    let far = zeros.iter().chain(&poles).map(|t| t.0).max().unwrap_or(0);
    let poles = poles.into_iter().map(|t| (t.0, t.1.clamp(-0.19, 0.19))).collect();
    GenericCase { zeros, poles, sig: vec![Seg::Noise(s.below(1 << 16), 1.0, far + s.us(1, 3_000))] }
}

/// Minutes of samples, thousands of changes of the factor.
#[derive(Debug)]
struct GainLong {
    seed: u64,
    samples: usize,
    per: usize,
}

fn gen_gain_long(s: &mut Src) -> GainLong {
    GainLong { seed: s.below(1 << 16), samples: s.us(10_000, 8_000_000), per: s.pick(&[1, 7, 1000, 100_000, usize::MAX]) }
}

fn run_gain_long(c: &GainLong, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed);
    let (mut g, mut p, mut z) = (Gain::new(0.5), Passthrough::new(), Zero::new());
    let mut a = 0.5f32;
    for n in 0..c.samples {
        if n % c.per == c.per - 1 {
            a = (r.unit() * 4.0 - 2.0) as f32;
            g.a = a;
        }
        let x = (r.unit() * 2.0 - 1.0) as f32;
        let y = g.process(x);
        let want = x as f64 * a as f64;
        ensure!((y as f64 - want).abs() <= 1.3e-7 * want.abs() + 1e-44, "sample {n}: gain {a:?} of {x:?} is {y:?}, expected {want:?}");
        let y = p.process(x);
        ensure!(y.to_bits() == x.to_bits(), "sample {n}: passthrough of {x:?} is {y:?}");
        let y = z.process();
        ensure!(y == 0.0, "sample {n}: zero gives {y:?}");
    }
    obs.compared += 3 * c.samples as u64;
    obs.nontrivial = true;
    Ok(())
}

#[derive(Debug)]
struct GainCase {
    first: f32,
    parts: Vec<(Option<f32>, Vec<f32>)>,
}

fn gen_gain(s: &mut Src) -> GainCase {
    let f = |s: &mut Src| if s.chance(1, 2) { amp(s) } else { finite_f32(s) };
    GainCase { first: f(s), parts: s.list(1, 6, |s| (if s.chance(1, 2) { Some(f(s)) } else { None }, s.list(0, 30, any_f32))) }
}

fn run_gain(c: &GainCase, obs: &mut Obs) -> Res {
    let mut g = Gain::new(c.first);
    let mut p = Passthrough::new();
    let mut z = Zero::new();
    let mut a = c.first;
    for (set, xs) in &c.parts {
        if let Some(v) = set {
            g.a = *v;
            a = *v;
        }
        for x in xs {
            let y = g.process(*x);
            let want = *x as f64 * a as f64;
            let w32 = *x * a;
            let ok = if w32.is_finite() && y.is_finite() {
                (y as f64 - want).abs() <= 1.3e-7 * want.abs() + 1e-44
            } else {
                (y.is_nan() && w32.is_nan()) || y == w32 || want.abs() > 3.4028e38
            };
            ensure!(ok, "gain {a:?} of {x:?} is {y:?}, expected {want:?}");
            let y = p.process(*x);
            ensure!(y.to_bits() == x.to_bits(), "passthrough of {x:?} is {y:?}");
            let y = z.process();
            ensure!(y == 0.0, "zero gives {y:?}");
            obs.compared += 3;
            obs.nontrivial = true;
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- stability

#[derive(Debug)]
enum Drive {
    Sig(Signal),
    /// Input whose signs line up with the impulse response at sample n.
    Worst(usize),
}

#[derive(Debug)]
struct StableCase {
    spec: Spec,
    amp: f32,
    drive: Drive,
    tail: usize,
}

fn gen_stable(s: &mut Src) -> StableCase {
    let max = if s.chance(1, 12) { 40_000 } else { 2_000 };
    let fc = |s: &mut Src| cutoff(s, true);
    let spec = match s.below(8) {
        0..=1 => Spec::LowPass(fc(s), resonance(s, true)),
        2..=3 => Spec::HighPass(fc(s), resonance(s, true)),
        4..=5 => Spec::BandPass(band(s)),
        6 => Spec::Echo(nanos(s, 300).max(21_000), s.pick(&[1.0, -1.0]) * (1.0 - s.logu(1e-3, 1.0))),
        _ => Spec::Delay(nanos(s, 2000)),
    };
    let drive = if s.chance(1, 2) { Drive::Worst(1 + s.size(max)) } else { Drive::Sig(signal(s, max)) };
    StableCase { spec, amp: s.logu(1e-3, 1e6) as f32, drive, tail: s.pick(&[300, 3_000, 30_000]) }
}

fn gen_stable_long(s: &mut Src) -> StableCase {
    let mut c = gen_stable(s);
    c.tail = s.us(100_000, 600_000);
    if s.chance(1, 2) {
        c.drive = Drive::Worst(s.us(10_000, 300_000));
    }
    c
}

fn impulse(spec: &Spec, n: usize) -> Vec<f64> {
    let at = |i: usize| if i == 0 { 1.0 } else { 0.0 };
    match spec {
        Spec::LowPass(f, r) => {
            let mut m = Third::new(false, *f, *r);
            (0..n).map(|i| m.step(at(i))).collect()
        }
        Spec::HighPass(f, r) => {
            let mut m = Third::new(true, *f, *r);
            (0..n).map(|i| m.step(at(i))).collect()
        }
        Spec::BandPass(b) => {
            let mut m = Band::new(b);
            (0..n).map(|i| m.step(at(i))).collect()
        }
        Spec::Echo(ns, g) => {
            let d = rounded(*ns)[0].max(1);
            let mut h = vec![0.0; n];
            let mut v = 1.0;
            let mut i = 0;
            while i < n {
                h[i] = v;
                v *= g;
                i += d;
            }
            h
        }
        Spec::Delay(ns) => {
            let d = rounded(*ns)[0];
            (0..n).map(|i| if i == d { 1.0 } else { 0.0 }).collect()
        }
        _ => unreachable!(),
    }
}

fn run_stable(c: &StableCase, obs: &mut Obs) -> Res {
    let (n, sig) = match &c.drive {
        Drive::Worst(n) => (*n, None),
        Drive::Sig(s) => {
            let v = render(s);
            (v.len(), Some(v))
        }
    };
    let total = n + c.tail;
    let h = impulse(&c.spec, total);
    let big = c.amp as f64;
    let x: Vec<f32> = match sig {
        Some(v) => v.into_iter().map(|x| (x * c.amp).max(-c.amp).min(c.amp)).collect(),
        None => (0..n).map(|i| if h[n - 1 - i] >= 0.0 { c.amp } else { -c.amp }).collect(),
    };
    // sums of |h| up to each sample
    let mut cum = Vec::with_capacity(total + 1);
    cum.push(0.0);
    let mut s = 0.0;
    for v in &h {
        s += v.abs();
        cum.push(s);
    }
    let slack = match c.spec {
        Spec::Echo(..) => 2e-3,
        _ => 1e-3,
    };
    let mut o = c.spec.build();
    let mut peak = 0.0f64;
    for t in 0..total {
        let y = o.step(if t < n { x[t] } else { 0.0 }) as f64;
        // inputs 0..=min(t, n-1) have passed t-n+1..=t samples ago
        let old = (t + 1).saturating_sub(n);
        let bound = big * ((cum[t + 1] - cum[old]) + (slack * 1e-2) * cum[t + 1]) * (1.0 + slack) + 1e-37;
        ensure!(
            y.abs() <= bound,
            "{}, sample {t} ({} after the input of at most {big:?} ended): {y:?}, can be at most {bound:?}",
            c.spec.kind(),
            t as i64 - n as i64 + 1
        );
        peak = peak.max(y.abs());
        obs.compared += 1;
    }
    obs.label(c.spec.kind());
    obs.label_if(matches!(c.drive, Drive::Worst(_)), "worst-case input");
    obs.label_if(cum[total] - cum[c.tail] < 1e-4 * cum[total], "followed until silent");
    obs.nontrivial = peak > 0.0;
    Ok(())
}

/// Filters whose settings are changed while they run stay finite, and still
/// fall silent; the nonlinear ones stay within their own bounds.
#[derive(Debug)]
struct LooseCase {
    case: FCase,
    amp: f32,
}

fn gen_loose(s: &mut Src) -> LooseCase {
    let spec = match s.below(6) {
        0 => Spec::LowPass(s.logu(100.0, 24_000.0), s.unit() * 0.95),
        1 => Spec::HighPass(s.logu(100.0, 24_000.0), s.unit() * 0.95),
        2 => Spec::BandPass(band(s)),
        3 => Spec::Adsr { a: stage(s, 800), d: stage(s, 800), s: sustain(s), r: stage(s, 800) },
        _ => {
            let (l, u) = env_freqs(s);
            Spec::Envelope(l, u)
        }
    };
    let mut case = gen_fops(s, spec, 600);
    // keep the last settings quick to decay
    match &case.spec {
        Spec::LowPass(..) | Spec::HighPass(..) => {
            case.ops.push(FOp::Set(Setting::Freq(s.logu(200.0, 24_000.0))));
            case.ops.push(FOp::Set(Setting::Resonance(s.unit() * 0.9)));
        }
        Spec::BandPass(_) => {
            case.ops.push(FOp::Set(Setting::Corners(s.logu(50.0, 1000.0), s.logu(1500.0, 20_000.0))));
        }
        _ => {}
    }
    LooseCase { case, amp: s.logu(1e-3, 1e6) as f32 }
}

fn run_loose(c: &LooseCase, obs: &mut Obs) -> Res {
    let big = c.amp as f64;
    let mut o = c.case.spec.build();
    let mut spec = c.case.spec.clone();
    let bound = match c.case.spec {
        Spec::Envelope(l, u) => {
            let co = |f: f32| {
                let t = (PI * f as f64 / FS).tan();
                (t / (1.0 + t), (1.0 - t) / (1.0 + t))
            };
            let (a, b) = (co(l), co(u));
            if a.1 >= 0.0 && b.1 >= 0.0 {
                // a convex combination of earlier values
                big * (1.0 + 1e-5 + 3e-7 / a.0.min(b.0))
            } else {
                big * 2.0 * a.0.max(b.0) / (1.0 - a.1.abs().max(b.1.abs())) * (1.0 + 1e-3)
            }
        }
        Spec::Adsr { .. } => big * (1.0 + 1e-6),
        _ => f64::INFINITY,
    };
    let mut peak = 0.0f64;
    for op in &c.case.ops {
        match op {
            FOp::Set(t) => {
                o.set(t);
                spec.apply(t);
            }
            FOp::Run(sig) => {
                for x in render(sig) {
                    let x = (x * c.amp).max(-c.amp).min(c.amp);
                    let y = o.step(x);
                    ensure!(y.is_finite() && y.abs() as f64 <= bound, "{}: {y:?} from input of at most {big:?}", spec.kind());
                    peak = peak.max(y.abs() as f64);
                    obs.compared += 1;
                }
            }
        }
    }
    let rate = match &spec {
        Spec::LowPass(f, r) | Spec::HighPass(f, r) => decay_third(*f, *r),
        Spec::BandPass(b) => {
            let (l, u) = b.corners();
            let f = |f: f64| {
                let t = (PI * f / FS).tan();
                -((1.0 - t) / (1.0 + t)).abs().max(1e-9).ln()
            };
            f(l).min(f(u))
        }
        Spec::Envelope(l, u) => {
            let f = |f: f32| {
                let t = (PI * f as f64 / FS).tan();
                -((1.0 - t) / (1.0 + t)).abs().max(1e-9).ln()
            };
            f(*l).min(f(*u))
        }
        _ => 10.0,
    };
    // Several decay times on, everything is far below the loudest moment and
    // goes on falling.
    let n = (30.0 / rate).min(1.2e6) as usize + 60;
    if n > 300_000 {
        obs.label("tail too long, not followed");
    } else {
        let at_end = peak.max(big);
        let (mut a, mut b) = (0.0f64, 0.0f64);
        for i in 0..n + n / 2 {
            let y = o.step(0.0);
            ensure!(y.is_finite() && y.abs() as f64 <= bound, "{}: {y:?} in silence after input of at most {big:?}", spec.kind());
            if i >= n / 2 && i < n {
                a = a.max(y.abs() as f64);
            } else if i >= n {
                b = b.max(y.abs() as f64);
            }
            obs.compared += 1;
        }
        ensure!(b <= at_end * 1e-6, "{}: still {b:?} after {n} samples of silence (loudest was {at_end:?})", spec.kind());
        ensure!(b <= a * 1.001 + at_end * 1e-9, "{}: grows from {a:?} to {b:?} in silence", spec.kind());
    }
    obs.label(spec.kind());
    obs.nontrivial = peak > 0.0;
    Ok(())
}

// ------------------------------------------------------------------------ lists

pub fn properties() -> Vec<Property> {
    let ns = |samples: f64| (samples / FS * 1e9).round() as u64;
    let hold = |a, d, s, r, n: usize| ACase { a, d, s, r, ops: vec![AOp::Hold(1.0, n), AOp::Release, AOp::Hold(1.0, n), AOp::Release, AOp::Hold(1.0, 100)] };
    let mut adsr_cases = Vec::new();
    for a in [0, 1, 20_833, 1_000_000, 10_000_000] {
        for d in [0, 1, 20_833, 1_000_000, 10_000_000] {
            for r in [0, 1, 20_833, 1_000_000, 10_000_000] {
                for s in [0.0, -6.0, 6.0, -100.0] {
                    adsr_cases.push(hold(a, d, s, r, 1100));
                    adsr_cases.push(hold(a, d, s, r, 7));
                    adsr_cases.push(hold(a, d, s, r, 0));
                }
            }
        }
    }
    let minutes = 60_000_000_000u64;
    adsr_cases.push(hold(2 * minutes, minutes, -12.0, minutes, 9_000_000));
    vec![
        Property {
            id: "C19",
            rule: "A case is a delay time (whole and fractional samples up to 350 s) and a stream of signals, counting ramps and arbitrary bit patterns; every output is compared bit for bit with the input shifted by the rounded time. Non-trivial: the stream is longer than the delay.",
            assumptions: &["a time within 1e-6 samples of half a sample may round either way"],
            subs: vec![
                Sub::new("shift", 2_400_000, 48_000_000, gen_delay, run_delay)
                    .with_cases((0..600).map(|k| DelayCase { ns: ns(k as f64), parts: vec![Input::Count(3 * k + 5)] }).collect(), run_delay),
                Sub::new("long", 320, 6_400, gen_delay_long, run_delay),
                Sub::new("minutes", 6, 120, gen_delay_minutes, run_delay),
                Sub::new("rests", 96, 1_920, gen_delay_rests, run_delay),
                Sub::new("huge", 12, 240, gen_delay_huge, run_delay).threads(4),
            ],
            probes: vec![],
        },
        Property {
            id: "C20",
            rule: "A case is an echo time, a gain (also 0, negative, above 1) and a signal; every output is compared with x[n] + g*y[n-d] over the outputs observed. Non-trivial: the signal is not silent and longer than the delay, and the gain is not 0.",
            assumptions: &["a time within 1e-6 samples of half a sample may round either way", "streams are followed until single precision overflows"],
            subs: vec![
                Sub::new("comb", 2_400_000, 48_000_000, gen_echo, run_echo).with_cases(
                    (0..400).map(|k| EchoCase { ns: ns(k as f64 / 4.0), g: 0.5, parts: vec![Input::Count(k + 50)] }).collect(),
                    run_echo,
                ),
                Sub::new("long", 480, 9_600, gen_echo_long, run_echo),
                Sub::new("minutes", 6, 120, gen_echo_minutes, run_echo),
                Sub::new("rests", 96, 1_920, gen_echo_rests, run_echo),
                Sub::new("huge", 8, 160, gen_echo_huge, run_echo).threads(4),
            ],
            probes: vec![],
        },
        Property {
            id: "C21",
            rule: "A case is a cutoff from 10 Hz up (also beyond the cap), a resonance (also beyond its range) and a history of signals and setting changes; every output is compared with a double-precision reference run on differences. Non-trivial: the input is not silent.",
            assumptions: &["tolerance is single-precision output rounding plus double-precision rounding amplified by the filter's own conditioning"],
            subs: vec![
                Sub::new("history", 600_000, 12_000_000, gen_low, run_third),
                Sub::new("sweep", 600_000, 12_000_000, gen_low_sweep, run_third),
                Sub::new("long", 1_200, 24_000, gen_low_long, run_third),
                Sub::new("minutes", 6, 120, gen_low_minutes, run_third),
                Sub::new("rests", 96, 1_920, gen_low_rests, run_third),
                Sub::new("glide", 160, 3_200, gen_low_glide, run_third),
                Sub::new("dc", 40_000, 800_000, gen_dc_low, run_dc),
            ],
            probes: vec![],
        },
        Property {
            id: "C22",
            rule: "A case is a cutoff from 10 Hz up (also beyond the cap), a resonance (also beyond its range) and a history of signals and setting changes; every output is compared with a double-precision reference run on differences. Non-trivial: the input is not silent.",
            assumptions: &["tolerance is single-precision output rounding plus double-precision rounding amplified by the filter's own conditioning"],
            subs: vec![
                Sub::new("history", 600_000, 12_000_000, gen_high, run_third),
                Sub::new("sweep", 600_000, 12_000_000, gen_high_sweep, run_third),
                Sub::new("long", 1_200, 24_000, gen_high_long, run_third),
                Sub::new("minutes", 6, 120, gen_high_minutes, run_third),
                Sub::new("rests", 96, 1_920, gen_high_rests, run_third),
                Sub::new("glide", 160, 3_200, gen_high_glide, run_third),
                Sub::new("dc", 40_000, 800_000, gen_dc_high, run_dc),
            ],
            probes: vec![],
        },
        Property {
            id: "C23",
            rule: "A case is a band pass built from corners (either way round) or from centre and quality and a history of signals and of all three kinds of changes; after each, every reported value and the relations between them, and every output against a reference filter. Non-trivial: the input is not silent.",
            assumptions: &["1 Hz <= lower corner < upper corner < 24000 Hz, corners at least 1e-7 apart relatively"],
            subs: vec![
                Sub::new("history", 600_000, 12_000_000, gen_band, run_band),
                Sub::new("sweep", 600_000, 12_000_000, gen_band_sweep, run_band),
                Sub::new("long", 1_200, 24_000, gen_band_long, run_band),
                Sub::new("minutes", 6, 120, gen_band_minutes, run_band),
                Sub::new("rests", 96, 1_920, gen_band_rests, run_band),
                Sub::new("glide", 160, 3_200, gen_band_glide, run_band),
            ],
            probes: vec![],
        },
        Property {
            id: "C24",
            rule: "A case is two corner frequencies (in either order of size) and a signal; every output is compared with one step of the recurrence from the output before. Non-trivial: the case both rises and falls with different rates.",
            assumptions: &["either rate may apply where |x| and the last output agree to single precision"],
            subs: vec![
                Sub::new("steps", 1_600_000, 32_000_000, gen_env, run_env),
                Sub::new("relations", 200_000, 4_000_000, gen_env_meta, run_env_meta),
                Sub::new("minutes", 6, 120, gen_env_minutes, run_env),
                Sub::new("rests", 96, 1_920, gen_env_rests, run_env),
            ],
            probes: vec![],
        },
        Property {
            id: "C25",
            rule: "A case is three stage times (nothing, fractions of a sample, exact stage ends, minutes), a sustain level and a history of signals and releases; every output is compared with all gains the envelope may have, a stage that ends within rounding of a sample forking the model. Non-trivial: at least two samples with non-zero input.",
            assumptions: &["finite sustain levels", "the first sample of a stage is already one step up or down"],
            subs: vec![
                Sub::new("stages", 240_000, 4_800_000, gen_adsr, run_adsr).with_cases(adsr_cases, run_adsr),
                Sub::new("long", 192, 3_840, gen_adsr_long, run_adsr),
                Sub::new("rests", 96, 1_920, gen_adsr_rests, run_adsr),
            ],
            probes: vec![],
        },
        Property {
            id: "C26",
            rule: "A case is a list of zeros and one of poles (any order, repeated, empty, far back) and a signal, every output compared with the difference equation on the outputs observed; or a history of gain factors and of samples of any bit pattern. Non-trivial: an output is not 0.",
            assumptions: &["growing responses are followed until 1e30"],
            subs: vec![
                Sub::new("generic", 600_000, 12_000_000, gen_generic, run_generic),
                Sub::new("gain", 2_000_000, 40_000_000, gen_gain, run_gain),
                Sub::new("gain_long", 24, 480, gen_gain_long, run_gain_long),
                Sub::new("minutes", 6, 120, gen_generic_minutes, run_generic),
                Sub::new("far", 200, 4_000, gen_generic_far, run_generic),
                Sub::new("rests", 96, 1_920, gen_generic_rests, run_generic),
            ],
            probes: vec![],
        },
        Property {
            id: "C35",
            rule: "A case is a modifier with legal settings, an amplitude and a bounded input (signals, or signs aligned with the impulse response), then silence; every output is within the bound that follows from the reference impulse response, so finite, bounded and decaying. Non-trivial: an output is not 0.",
            assumptions: &["envelope frequencies up to 23 kHz; band-pass corners as for C23"],
            subs: vec![
                Sub::new("linear", 48_000, 960_000, gen_stable, run_stable),
                Sub::new("long", 480, 9_600, gen_stable_long, run_stable),
                Sub::new("changing", 32_000, 640_000, gen_loose, run_loose),
            ],
            probes: vec![],
        },
    ]
}
