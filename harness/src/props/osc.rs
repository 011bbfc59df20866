//! C01-C05: oscillators and noise.

use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use bae_rs::generators::*;

#[derive(Debug, Clone)]
pub enum Op {
    Run(usize),
    Set(f64),
    Get,
    /// Set the frequency that is already set.
    Same,
}

#[derive(Debug, Clone)]
pub struct Case {
    pub f: f64,
    pub ops: Vec<Op>,
}

fn gen_history(s: &mut Src) -> Case {
    let f = freq(s);
    let mut ops = s.list(1, 24, |s| match s.below(8) {
        0..=1 => Op::Run(1),
        2..=3 => Op::Run(1 + s.size(300)),
        4..=5 => Op::Set(freq(s)),
        6 => Op::Get,
        _ => Op::Same,
    });
    ops.push(Op::Run(1 + s.size(40)));
    Case { f, ops }
}

/// Frequency changed on (nearly) every sample.
fn gen_sweep(s: &mut Src) -> Case {
    let f = freq(s);
    let (lo, hi) = (freq(s), freq(s));
    let n = 1 + s.size(600);
    let step = 1 + s.size(3);
    let mut ops = Vec::new();
    for i in 0..n {
        let x = i as f64 / n as f64;
        ops.push(Op::Set(lo * (hi / lo).powf(x)));
        ops.push(Op::Run(step));
        if i % 16 == 0 {
            ops.push(Op::Get);
        }
    }
    Case { f, ops }
}

fn gen_long(s: &mut Src) -> Case {
    let f = freq(s);
    let mut ops = vec![Op::Run(s.us(300_000, 1_500_000))];
    for _ in 0..s.below(4) {
        ops.push(Op::Set(freq(s)));
        ops.push(Op::Get);
        ops.push(Op::Run(s.us(1, 600_000)));
    }
    Case { f, ops }
}

/// Thousands of changes of the frequency.
fn gen_long_sweep(s: &mut Src) -> Case {
    let f = freq(s);
    let (lo, hi) = (freq(s), freq(s));
    let n = s.us(2_000, 20_000);
    let seed = s.below(1 << 16);
    let wild = s.chance(1, 2);
    let mut r = Rng::new(seed);
    let mut ops = Vec::new();
    for i in 0..n {
        let x = if wild { r.unit() } else { i as f64 / n as f64 };
        ops.push(Op::Set(lo * (hi / lo).powf(x)));
        ops.push(Op::Run((r.next() >> 40) as usize % 3));
    }
    ops.push(Op::Run(100));
    Case { f, ops }
}

fn gen_very_long(s: &mut Src) -> Case {
    let f = freq(s);
    Case { f, ops: vec![Op::Run(s.us(10_000_000, 60_000_000)), Op::Set(freq(s)), Op::Run(1_000_000)] }
}

struct At {
    phase: Phase,
    steps: u64,
    sets: u64,
}

impl At {
    /// Distance in cycles within which rounding may put the phase elsewhere.
    fn eps(&self) -> f64 {
        1e-14 * (self.steps as f64 + 100.0) + 1e-13 * self.sets as f64
    }
}

fn run<G: Generator + FreqMod>(c: &Case, obs: &mut Obs, judge: fn(&At, f32) -> Result<(), f64>) -> Res {
    let mut g = G::new(c.f);
    let mut f = c.f;
    let mut inc = phase_inc(f);
    let mut at = At { phase: Phase(0), steps: 0, sets: 0 };
    let mut wraps = 0u64;
    ensure!((g.get_frequency() - f).abs() <= 1e-11 * f, "built with {f:?} Hz, reports {:?} Hz", g.get_frequency());
    for op in &c.ops {
        match op {
            Op::Run(n) => {
                for _ in 0..*n {
                    let y = g.process();
                    if let Err(want) = judge(&at, y) {
                        return Err(format!(
                            "sample {} at {f:?} Hz, phase {:.12} cycles: got {y:?}, expected {want:?}",
                            at.steps,
                            at.phase.cycles()
                        ));
                    }
                    let before = at.phase.0;
                    at.phase.step(inc);
                    wraps += (at.phase.0 < before) as u64;
                    at.steps += 1;
                }
                obs.compared += *n as u64;
            }
            Op::Set(x) => {
                g.set_frequency(*x);
                at.sets += 1;
                f = *x;
                inc = phase_inc(f);
            }
            Op::Same => {
                g.set_frequency(f);
                at.sets += 1;
            }
            Op::Get => {}
        }
        if !matches!(op, Op::Run(_)) {
            obs.compared += 1;
            let r = g.get_frequency();
            ensure!((r - f).abs() <= 1e-11 * f, "frequency set to {f:?} Hz, reports {r:?} Hz after {} samples", at.steps);
        }
    }
    obs.label_if(at.sets > 0, "frequency changed");
    obs.label_if(wraps > 0, "completed a cycle");
    obs.label_if(at.steps > 300_000, "over 300000 samples");
    obs.label_if(c.f > 12000.0, "above 12 kHz");
    obs.nontrivial = at.steps >= 2;
    Ok(())
}

fn sine(at: &At, y: f32) -> Result<(), f64> {
    let want = (at.phase.cycles() * std::f64::consts::TAU).sin();
    if (y as f64 - want).abs() <= 1e-6 {
        Ok(())
    } else {
        Err(want)
    }
}

fn saw(at: &At, y: f32) -> Result<(), f64> {
    let p = at.phase.cycles();
    let want = if p < 0.5 { 2.0 * p } else { 2.0 * p - 2.0 };
    let d = (y as f64 - want).abs();
    // At the jump, rounding may take it before or after.
    let eps = 1e-6;
    if y.abs() <= 1.0 + 1e-6 && (d <= eps || ((p - 0.5).abs() <= eps.max(at.eps()) && (2.0 - d).abs() <= eps)) {
        Ok(())
    } else {
        Err(want)
    }
}

fn square(at: &At, y: f32) -> Result<(), f64> {
    let p = at.phase.cycles();
    let want = if p < 0.5 { 1.0 } else { -1.0 };
    if y as f64 == want {
        return Ok(());
    }
    let e = at.eps();
    let edge = (p - 0.5).abs() <= e || (at.steps > 0 && (p <= e || p >= 1.0 - e));
    if edge && y.abs() == 1.0 {
        Ok(())
    } else {
        Err(want)
    }
}

fn triangle(at: &At, y: f32) -> Result<(), f64> {
    let p = at.phase.cycles();
    let want = if p < 0.25 {
        4.0 * p
    } else if p < 0.75 {
        2.0 - 4.0 * p
    } else {
        4.0 * p - 4.0
    };
    if (y as f64 - want).abs() <= 1e-6 && y.abs() <= 1.0 + 1e-6 {
        Ok(())
    } else {
        Err(want)
    }
}

fn run_sine(c: &Case, o: &mut Obs) -> Res {
    run::<Sine>(c, o, sine)
}
fn run_saw(c: &Case, o: &mut Obs) -> Res {
    run::<Sawtooth>(c, o, saw)
}
fn run_square(c: &Case, o: &mut Obs) -> Res {
    run::<Square>(c, o, square)
}
fn run_triangle(c: &Case, o: &mut Obs) -> Res {
    run::<Triangle>(c, o, triangle)
}

/// Edges that fall exactly on samples may individually move by rounding, but
/// not all the same way: half of every cycle is high.
#[derive(Debug)]
struct Duty {
    half: usize,
    cycles: usize,
}

fn gen_duty(s: &mut Src) -> Duty {
    Duty { half: 1 + s.size(2000), cycles: s.us(8, 64) }
}

fn run_duty(c: &Duty, obs: &mut Obs) -> Res {
    let mut g = Square::new(24000.0 / c.half as f64);
    let mut high = 0i64;
    for _ in 0..2 * c.half * c.cycles {
        high += (g.process() > 0.0) as i64;
    }
    obs.compared += 1;
    obs.nontrivial = true;
    let want = (c.half * c.cycles) as i64;
    ensure!(
        (high - want).abs() <= 1 + c.cycles as i64 / 4,
        "period of {} samples, {} cycles: {high} samples are high, expected {want}",
        2 * c.half,
        c.cycles
    );
    Ok(())
}

const OSC_RULE: &str = "A case is an initial frequency and a history of set/get/sample calls (short dense histories, per-sample sweeps, runs of up to 1.5 million samples; thorough: 60 million), every sample compared with the ideal waveform at a phase tracked in 2^-64 cycles. Non-trivial: at least two samples are played (the phase has moved).";
const OSC_ASSUME: &[&str] = &["frequencies in (0, 24000] Hz"];

fn osc(id: &'static str, run: fn(&Case, &mut Obs) -> Res) -> Property {
    let fixed = |f: f64, n: usize| Case { f, ops: vec![Op::Run(n), Op::Get] };
    let specials = [24000.0, 12000.0, 8000.0, 6000.0, 4800.0, 440.0, 1.0, 1000.0, 9600.0, 16000.0, 23999.0, 10.0, 0.01];
    let mut cases: Vec<Case> = specials.iter().map(|&f| fixed(f, 100_000)).collect();
    cases.extend((1..=240).map(|k| fixed(k as f64 * 100.0, 2000)));
    Property {
        id,
        rule: OSC_RULE,
        assumptions: OSC_ASSUME,
        subs: vec![
            Sub::new("history", 1_500_000, 30_000_000, gen_history, run).with_cases(cases, run),
            Sub::new("sweep", 48_000, 960_000, gen_sweep, run),
            Sub::new("long", 800, 16_000, gen_long, run),
            Sub::new("very_long", 6, 160, gen_very_long, run),
            Sub::new("long_sweep", 300, 6_000, gen_long_sweep, run),
        ],
        probes: vec![],
    }
}

// ------------------------------------------------------------------------ noise

/// How the generators of a case come about and are drawn from.
#[derive(Debug)]
struct NoiseCase {
    /// Further generators: None is a new one, Some(i) a clone of generator i
    /// taken after it was used this many times.
    made: Vec<Option<(usize, usize)>>,
    interleaved: bool,
    n: usize,
}

fn gen_noise(s: &mut Src) -> NoiseCase {
    let mut k = 1usize;
    let made = s.list(0, 3, |s| {
        let m = if s.chance(1, 2) { Some((s.us(0, k - 1), s.size(2000))) } else { None };
        k += 1;
        m
    });
    NoiseCase { made, interleaved: s.chance(1, 2), n: s.us(150_000, 300_000) }
}

/// Whiteness, distribution and independence, each against a bound at least 7
/// standard deviations wide (false alarm probability below 1e-11 per test).
fn run_noise(c: &NoiseCase, obs: &mut Obs) -> Res {
    let mut gens = vec![Noise::new()];
    for m in &c.made {
        match m {
            None => gens.push(Noise::new()),
            Some((i, used)) => {
                for _ in 0..*used {
                    gens[*i].process();
                }
                let g = gens[*i].clone();
                gens.push(g);
            }
        }
    }
    let n = c.n;
    let mut out: Vec<Vec<f32>> = gens.iter().map(|_| Vec::with_capacity(n)).collect();
    if c.interleaved {
        for _ in 0..n {
            for (g, o) in gens.iter_mut().zip(&mut out) {
                o.push(g.process());
            }
        }
    } else {
        for (g, o) in gens.iter_mut().zip(&mut out) {
            for _ in 0..n {
                o.push(g.process());
            }
        }
    }
    let sd = 8.0;
    for (gi, o) in out.iter().enumerate() {
        for (i, y) in o.iter().enumerate() {
            ensure!(*y >= -1.0 && *y < 1.0, "generator {gi} sample {i} is {y:?}, outside [-1, 1)");
        }
        let nf = n as f64;
        let mean = o.iter().map(|&y| y as f64).sum::<f64>() / nf;
        ensure!(mean.abs() < sd * (1.0 / 3.0f64 / nf).sqrt(), "generator {gi}: mean {mean} over {n} samples");
        let var = o.iter().map(|&y| (y as f64).powi(2)).sum::<f64>() / nf;
        // var of y^2 is 4/45
        ensure!((var - 1.0 / 3.0).abs() < sd * (4.0 / 45.0 / nf).sqrt(), "generator {gi}: variance {var} over {n} samples");
        for bins in [2usize, 3, 16, 61, 256] {
            let mut count = vec![0u64; bins];
            for &y in o {
                count[(((y as f64 + 1.0) / 2.0 * bins as f64) as usize).min(bins - 1)] += 1;
            }
            let e = nf / bins as f64;
            for (b, k) in count.iter().enumerate() {
                ensure!(
                    (*k as f64 - e).abs() < sd * e.sqrt() + 3.0,
                    "generator {gi}: bin {b} of {bins} holds {k} of {n} samples, expected about {e:.0}"
                );
            }
            let chi: f64 = count.iter().map(|k| (*k as f64 - e).powi(2) / e).sum();
            let dof = bins as f64 - 1.0;
            // Laurent-Massart bound with t = 40 (probability below 1e-17)
            ensure!(chi < dof + 2.0 * (dof * 40.0).sqrt() + 80.0, "generator {gi}: chi square {chi:.1} over {bins} bins");
        }
        // Resolution: 24-bit draws collide rarely.
        let mut bits: Vec<u32> = o.iter().map(|y| y.to_bits()).collect();
        bits.sort_unstable();
        bits.dedup();
        let m = (1u64 << 22) as f64;
        let least = m * (1.0 - (-nf / m).exp()) * 0.97;
        ensure!(bits.len() as f64 > least, "generator {gi}: only {} distinct values in {n} samples", bits.len());
        for lag in (1..=48).chain([64, 100, 127, 128, 256, 480, 1000, 1024, 4096, 48_000]) {
            let m = n - lag;
            let r = (0..m).map(|i| o[i] as f64 * o[i + lag] as f64).sum::<f64>() / m as f64;
            ensure!(r.abs() < sd * (1.0 / 9.0 / m as f64).sqrt(), "generator {gi}: autocorrelation {r} at lag {lag}");
            obs.compared += 1;
        }
        // squares and signs: no hidden dependence between neighbours
        for lag in 1..=4 {
            let m = n - lag;
            let r = (0..m).map(|i| ((o[i] as f64).powi(2) - 1.0 / 3.0) * ((o[i + lag] as f64).powi(2) - 1.0 / 3.0)).sum::<f64>()
                / m as f64;
            ensure!(r.abs() < sd * (4.0 / 45.0) / (m as f64).sqrt() * 1.5, "generator {gi}: energy correlation {r} at lag {lag}");
        }
        obs.compared += n as u64;
    }
    windows(&out)?;
    spectra(&out, obs)?;
    for a in 0..out.len() {
        for b in 0..a {
            for lag in -32i64..=32 {
                let m = n - 32;
                let r = (32..m)
                    .map(|i| out[a][i] as f64 * out[b][(i as i64 + lag) as usize] as f64)
                    .sum::<f64>()
                    / (m - 32) as f64;
                ensure!(
                    r.abs() < sd * (1.0 / 9.0 / (m - 32) as f64).sqrt(),
                    "generators {b} and {a} are correlated: {r} at lag {lag}"
                );
                obs.compared += 1;
            }
        }
    }
    obs.label_if(c.made.iter().any(|m| m.is_some()), "with a clone");
    obs.label_if(c.made.iter().any(|m| m.is_none()), "with a second instance");
    obs.nontrivial = true;
    Ok(())
}

/// No four consecutive samples occur twice, in whatever stream, as they are or
/// with the other sign: nothing is played again.
fn windows(out: &[Vec<f32>]) -> Res {
    let mut seen = std::collections::HashMap::new();
    for (gi, o) in out.iter().enumerate() {
        for (i, w) in o.windows(4).enumerate() {
            let flip = if w[0].is_sign_negative() { -1.0 } else { 1.0 };
            let key = w.iter().fold(0u64, |h, y| mix(h ^ (y * flip).to_bits() as u64));
            if let Some((g, at)) = seen.insert(key, (gi, i)) {
                if (0..4).any(|k| out[g][at + k].abs() != w[k].abs()) {
                    continue;
                }
                return Err(format!("samples {i} to {} of generator {gi} repeat those from {at} of generator {g}: {w:?}", i + 3));
            }
        }
    }
    Ok(())
}

/// Radix-2 Fourier transform in place.
fn fft(re: &mut [f64], im: &mut [f64]) {
    let n = re.len();
    let mut j = 0;
    for i in 1..n {
        let mut bit = n >> 1;
        while j & bit != 0 {
            j ^= bit;
            bit >>= 1;
        }
        j |= bit;
        if i < j {
            re.swap(i, j);
            im.swap(i, j);
        }
    }
    let mut len = 2;
    while len <= n {
        let tw: Vec<(f64, f64)> = (0..len / 2).map(|k| (-2.0 * std::f64::consts::PI * k as f64 / len as f64).sin_cos()).collect();
        for s in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let (wi, wr) = tw[k];
                let (a, b) = (s + k, s + k + len / 2);
                let (xr, xi) = (re[b] * wr - im[b] * wi, re[b] * wi + im[b] * wr);
                re[b] = re[a] - xr;
                im[b] = im[a] - xi;
                re[a] += xr;
                im[a] += xi;
            }
        }
        len *= 2;
    }
}

/// Correlations at every lag up to half a stretch of 2^16 samples, within and
/// between streams, by Fourier transform of the zero-padded stretches.
fn spectra(out: &[Vec<f32>], obs: &mut Obs) -> Res {
    let half = 1usize << 16;
    if out.iter().any(|o| o.len() < half) {
        return Ok(());
    }
    let spec: Vec<(Vec<f64>, Vec<f64>)> = out
        .iter()
        .map(|o| {
            let mut re: Vec<f64> = o[..half].iter().map(|y| *y as f64).collect();
            re.resize(2 * half, 0.0);
            let mut im = vec![0.0; 2 * half];
            fft(&mut re, &mut im);
            (re, im)
        })
        .collect();
    for a in 0..out.len() {
        for b in 0..=a {
            let (x, y) = (&spec[a], &spec[b]);
            // conjugate of one times the other; the transform of that, read
            // backwards, is the correlation
            let mut re: Vec<f64> = (0..2 * half).map(|k| x.0[k] * y.0[k] + x.1[k] * y.1[k]).collect();
            let mut im: Vec<f64> = (0..2 * half).map(|k| x.1[k] * y.0[k] - x.0[k] * y.1[k]).collect();
            fft(&mut re, &mut im);
            for k in 0..2 * half {
                let lag = if k < half { k } else { 2 * half - k };
                if (a == b && lag == 0) || lag > half / 2 {
                    continue;
                }
                let m = (half - lag) as f64;
                let r = re[k] / (2 * half) as f64 / m;
                ensure!(
                    r.abs() < 9.0 * (1.0 / 9.0 / m).sqrt(),
                    "generators {b} and {a}: correlation {r} at lag {lag}"
                );
                obs.compared += 1;
            }
        }
    }
    Ok(())
}

/// One long stream and what a clone of it plays.
#[derive(Debug)]
struct LongNoise {
    n: usize,
}

fn gen_noise_long(s: &mut Src) -> LongNoise {
    LongNoise { n: s.us(1_500_000, 2_500_000) }
}

fn run_noise_long(c: &LongNoise, obs: &mut Obs) -> Res {
    let mut g = Noise::new();
    let a: Vec<f32> = (0..c.n).map(|_| g.process()).collect();
    let mut h = g.clone();
    let b: Vec<f32> = (0..c.n / 2).map(|_| h.process()).collect();
    for (i, y) in a.iter().chain(&b).enumerate() {
        ensure!(*y >= -1.0 && *y < 1.0, "sample {i} is {y:?}, outside [-1, 1)");
    }
    // every stretch has the distribution, not only the whole
    for (k, w) in a.chunks(100_000).chain(b.chunks(100_000)).enumerate() {
        let m = w.len() as f64;
        let mean = w.iter().map(|y| *y as f64).sum::<f64>() / m;
        let var = w.iter().map(|y| (*y as f64).powi(2)).sum::<f64>() / m;
        ensure!(mean.abs() < 9.0 * (1.0 / 3.0 / m).sqrt(), "mean {mean} over stretch {k}");
        ensure!((var - 1.0 / 3.0).abs() < 9.0 * (4.0 / 45.0 / m).sqrt(), "variance {var} over stretch {k}");
    }
    windows(&[a, b])?;
    obs.compared += c.n as u64 * 3 / 2;
    obs.nontrivial = true;
    Ok(())
}

/// Many short-lived generators, each giving a few samples: their first samples
/// are as random as any.
#[derive(Debug)]
struct Fresh {
    per: usize,
    cloned: bool,
    threads: bool,
}

fn gen_fresh(s: &mut Src) -> Fresh {
    Fresh { per: s.us(1, 4), cloned: s.chance(1, 2), threads: s.chance(1, 8) }
}

/// Tens of millions of samples of one generator: no stretch of it comes again.
#[derive(Debug)]
struct Period {
    samples: usize,
    cloned: bool,
}

fn gen_period(s: &mut Src) -> Period {
    Period { samples: s.us(20_000_000, 80_000_000), cloned: s.chance(1, 3) }
}

fn run_period(c: &Period, obs: &mut Obs) -> Res {
    const W: usize = 6;
    let mut g = Noise::new();
    if c.cloned {
        g.process();
        g = g.clone();
    }
    let starts = [0usize, 1_000, 70_000, 1_100_000, 17_000_000];
    let mut kept: Vec<(usize, [f32; W])> = Vec::new();
    let mut last = [0.0f32; W];
    for n in 0..c.samples {
        last.copy_within(1.., 0);
        last[W - 1] = g.process();
        ensure!((-1.0..1.0).contains(&last[W - 1]), "sample {n} is {:?}", last[W - 1]);
        if n + 1 < W {
            continue;
        }
        let at = n + 1 - W;
        for (k, w) in &kept {
            ensure!(w[0] != last[0] || w != &last, "samples {at} to {n} repeat those from {k}: {last:?}");
        }
        if starts.contains(&at) {
            kept.push((at, last));
        }
    }
    obs.compared += c.samples as u64;
    obs.nontrivial = true;
    Ok(())
}

fn run_fresh(c: &Fresh, obs: &mut Obs) -> Res {
    let n = 20_000usize;
    let mut v: Vec<f64> = Vec::new();
    if c.threads {
        // the same construction on several threads gives different streams
        let streams: Vec<Vec<f32>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..8)
                .map(|_| {
                    sc.spawn(|| {
                        let mut g = Noise::new();
                        (0..2000).map(|_| g.process()).collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("noise panicked on a thread")).collect()
        });
        for a in 0..streams.len() {
            for b in 0..a {
                let same = (0..2000).filter(|&i| streams[a][i] == streams[b][i]).count();
                ensure!(same < 20, "threads {b} and {a} produced {same} equal samples of 2000");
            }
            v.extend(streams[a].iter().map(|&y| y as f64));
        }
    } else {
        let mut base = Noise::new();
        for _ in 0..n {
            let mut g = if c.cloned { base.clone() } else { Noise::new() };
            for _ in 0..c.per {
                v.push(g.process() as f64);
            }
            if c.cloned {
                v.push(base.process() as f64);
            }
        }
    }
    let m = v.len() as f64;
    for y in &v {
        ensure!(*y >= -1.0 && *y < 1.0, "sample {y:?} outside [-1, 1)");
    }
    let mean = v.iter().sum::<f64>() / m;
    ensure!(mean.abs() < 8.0 * (1.0 / 3.0 / m).sqrt(), "mean {mean} over {m} samples of fresh generators");
    let mut count = [0u64; 32];
    for y in &v {
        count[((y + 1.0) * 16.0) as usize] += 1;
    }
    let e = m / 32.0;
    for (b, k) in count.iter().enumerate() {
        ensure!((*k as f64 - e).abs() < 8.0 * e.sqrt() + 3.0, "bin {b} of 32 holds {k} samples, expected {e:.0}");
    }
    for lag in 1..=12usize {
        let k = v.len() - lag;
        let r = (0..k).map(|i| v[i] * v[i + lag]).sum::<f64>() / k as f64;
        ensure!(r.abs() < 8.0 * (1.0 / 9.0 / k as f64).sqrt(), "correlation {r} at lag {lag} across fresh generators");
    }
    obs.compared += v.len() as u64;
    obs.nontrivial = true;
    Ok(())
}

pub fn properties() -> Vec<Property> {
    let mut sq = osc("C03", run_square);
    sq.subs.push(Sub::new("duty", 32_000, 640_000, gen_duty, run_duty));
    vec![
        osc("C01", run_sine),
        osc("C02", run_saw),
        sq,
        osc("C04", run_triangle),
        Property {
            id: "C05",
            rule: "A case is a set of noise generators made anew or by cloning used ones, drawn from interleaved or one after another for 150000 to 300000 samples each (or 20000 generators of a few samples each); range, moments, histogram, resolution, autocorrelation at 58 lags and cross-correlation at 65 lags (over the whole streams) and at all 65537 lags up to 2^15 either way (over 2^16 samples) are tested at 8 to 9 standard deviations, and no four consecutive samples may occur twice; streams of millions of samples are searched for repetition. Every case is non-trivial. The random engine seeds itself from the operating system, so sample values differ from run to run, the case structure does not.",
            assumptions: &["statistical bounds are 8 standard deviations wide: a sound generator exceeds one with probability below 1e-14"],
            subs: vec![Sub::new("whiteness", 240, 4_800, gen_noise, run_noise), Sub::new("fresh", 480, 9_600, gen_fresh, run_fresh), Sub::new("long", 16, 320, gen_noise_long, run_noise_long), Sub::new("period", 16, 320, gen_period, run_period)],
            probes: vec![],
        },
    ]
}
