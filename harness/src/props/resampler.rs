//! C07, C08: resampler; C38: WAV player.

use super::wav::{encode, gen_wav, ChunkedReader, Chunking, WavSpec};
use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use bae_rs::generators::{Generator, MonoWav};
use bae_rs::utils::MonoResampler;
use bae_rs::Mono;
use std::fmt;

/// Reference playback position and expected value.
pub struct Model {
    track: Vec<f32>,
    looped: Option<(usize, usize)>,
    rate: f64,
    step: (f64, f64),
    pos: DD,
    n: u64,
    speed_max: f64,
    /// All positions so far are exact in double precision.
    exact: bool,
}

fn dyadic(x: f64) -> bool {
    x == 0.0 || (x.abs() < 1048576.0 && (x * 1048576.0).fract() == 0.0)
}

impl Model {
    pub fn new(track: Vec<f32>, rate: f64, looped: Option<(usize, usize)>) -> Model {
        let mut m = Model { track, looped, rate, step: (0.0, 0.0), pos: DD::new(0.0), n: 0, speed_max: 0.0, exact: true };
        m.speed(1.0);
        m
    }

    pub fn speed(&mut self, s: f64) {
        // rate * s / 48000 with twice the precision
        let p = self.rate * s;
        let e = self.rate.mul_add(s, -p);
        let q = p / 48000.0;
        let r = (-q).mul_add(48000.0, p) + e;
        self.step = (q, r / 48000.0);
        self.exact &= self.step.1 == 0.0 && dyadic(q) && dyadic(self.rate / 48000.0) && dyadic(s);
        self.speed_max = self.speed_max.max(q.abs());
    }

    pub fn pos(&self) -> f64 {
        self.pos.hi
    }

    pub fn ended(&self) -> bool {
        self.looped.is_none() && self.pos.floor() >= self.track.len() as f64
    }

    fn at(&self, k: f64) -> Option<f64> {
        // sample k of the (unrolled) track; the last one is held
        let k = k as u64;
        match self.looped {
            Some((a, b)) => {
                let (a, b) = (a as u64, b as u64);
                let i = if k < b { k } else { a + (k - a) % (b - a) };
                Some(self.track[i as usize] as f64)
            }
            None => {
                let n = self.track.len() as u64;
                if k < n {
                    Some(self.track[k as usize] as f64)
                } else {
                    None
                }
            }
        }
    }

    /// Value at `pos + d`.
    fn value(&self, pos: DD) -> f64 {
        let k = pos.floor();
        if k < 0.0 {
            return self.value(DD::new(0.0));
        }
        let x1 = match self.at(k) {
            Some(x) => x,
            None => return 0.0,
        };
        let x2 = self.at(k + 1.0).unwrap_or(x1);
        x1 + pos.minus(k) * (x2 - x1)
    }

    fn tol(&self) -> f64 {
        if self.exact && self.pos.hi < 1e9 {
            return 0.0;
        }
        let eps = f64::EPSILON;
        let size = match self.looped {
            Some((_, b)) => self.pos.hi.min(b as f64 + self.speed_max),
            None => self.pos.hi,
        };
        (self.n as f64 * 0.6 + 4.0) * eps * size.max(self.speed_max) + 6.0 * eps * self.pos.hi
    }

    /// Checks one output sample and advances.
    pub fn check(&mut self, y: f32) -> Res {
        let t = self.tol();
        let mut lo = f64::INFINITY;
        let mut hi = f64::NEG_INFINITY;
        let mut see = |v: f64| {
            lo = lo.min(v);
            hi = hi.max(v);
        };
        let want = self.value(self.pos);
        see(want);
        if t > 0.0 {
            let a = self.pos.add(-t);
            let b = self.pos.add(t);
            see(self.value(a));
            see(self.value(b));
            let (ka, kb) = (a.floor(), b.floor());
            if kb - ka <= 4.0 {
                let mut k = ka.max(0.0);
                while k <= kb {
                    if k >= a.hi {
                        see(self.value(DD::new(k)));
                    }
                    k += 1.0;
                }
            }
        }
        // single-precision interpolation between neighbours of this size
        let (ka, kb) = (self.pos.add(-t).floor().max(0.0), self.pos.add(t).floor().max(0.0));
        let near = [ka, ka + 1.0, kb, kb + 1.0].iter().map(|k| self.at(*k).unwrap_or(0.0).abs()).fold(0.0, f64::max) * 2.0;
        let slack = 1.2e-6 * near + 1e-44;
        let ok = y.is_finite() && (y as f64) >= lo - slack && (y as f64) <= hi + slack;
        let at = self.pos.hi;
        let n = self.n;
        self.pos = self.pos.add(self.step.0).add(self.step.1);
        self.n += 1;
        if ok {
            Ok(())
        } else {
            Err(format!("sample {n} at position {at:?}: got {y:?}, expected {want:?} (position tolerance {t:e})"))
        }
    }
}

#[derive(Debug, Clone)]
pub enum Op {
    Run(usize),
    Speed(f64),
}

#[derive(Clone)]
pub struct Case {
    pub track: Signal,
    pub rate: f64,
    pub looped: Option<(usize, usize)>,
    pub swapped: bool,
    pub ops: Vec<Op>,
}

impl fmt::Debug for Case {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(
            f,
            "{{track: {:?}, rate: {:?}, loop: {:?}{}, ops: {:?}}}",
            self.track,
            self.rate,
            self.looped,
            if self.swapped { " given end first" } else { "" },
            self.ops
        )
    }
}

fn rate(s: &mut Src) -> f64 {
    match s.below(6) {
        0 => s.pick(&[48000.0, 24000.0, 96000.0, 12000.0, 192000.0, 6000.0, 3000.0, 72000.0]),
        1..=2 => s.pick(&[44100.0, 22050.0, 8000.0, 11025.0, 16000.0, 32000.0, 88200.0, 176400.0, 47999.0, 48001.0]),
        3 => s.int(1, 400_000) as f64,
        _ => s.logu(1.0, 2e6),
    }
}

pub fn speed(s: &mut Src) -> f64 {
    match s.below(8) {
        0 => s.pick(&[1.0, 0.5, 2.0, 0.0, 0.25, 4.0, 0.75, 1.5, 8.0, 3.0, 0.125, 1.25]),
        1 => 0.0,
        2..=3 => s.uni(0.0, 4.0),
        4 => s.logu(1e-6, 1.0),
        5 => s.logu(1.0, 50.0),
        6 => s.logu(1.0, 2000.0),
        _ => (2f64).powf(s.int(-24, 24) as f64 / 12.0),
    }
}

pub fn ops(s: &mut Src, max: usize) -> Vec<Op> {
    let mut v = s.list(0, 16, |s| if s.chance(3, 5) { Op::Run(1 + s.size(max)) } else { Op::Speed(speed(s)) });
    v.push(Op::Run(4 + s.size(max)));
    v
}

fn track(s: &mut Src) -> Signal {
    match s.below(6) {
        0 => vec![Seg::Raw(s.list(0, 8, sample))],
        1 => vec![Seg::Raw(s.list(0, 40, sample))],
        2 => vec![Seg::Ramp(0.0, sample(s), 1 + s.size(300))],
        _ => signal(s, 300),
    }
}

fn gen_plain(s: &mut Src) -> Case {
    Case { track: track(s), rate: rate(s), looped: None, swapped: false, ops: ops(s, 200) }
}

fn gen_loop(s: &mut Src) -> Case {
    let mut t = track(s);
    let mut n = t.iter().map(Seg::len).sum::<usize>();
    if n == 0 {
        t = vec![Seg::Raw(vec![0.5])];
        n = 1;
    }
    let looped = match s.below(4) {
        0 => (0, n),
        1 => {
            let b = s.us(1, n);
            (b - 1, b)
        }
        2 => {
            let a = s.us(0, n - 1);
            (a, n)
        }
        _ => {
            let a = s.us(0, n - 1);
            (a, s.us(a + 1, n))
        }
    };
    Case { track: t, rate: rate(s), looped: Some(looped), swapped: s.chance(1, 2), ops: ops(s, 300) }
}

fn gen_long_plain(s: &mut Src) -> Case {
    let n = s.us(200_000, 1_200_000);
    let seg = match s.below(3) {
        0 => Seg::Ramp(-1.0, 1.0, n),
        1 => Seg::Tone(s.logu(50.0, 20000.0), 1.0, n),
        _ => Seg::Noise(s.below(1 << 16), 1.0, n),
    };
    let r = rate(s).max(8000.0);
    let target = n as f64 / (r / 48000.0);
    let mut ops = Vec::new();
    for _ in 0..s.below(3) {
        ops.push(Op::Run((target * s.uni(0.05, 0.3)) as usize));
        ops.push(Op::Speed(s.uni(0.5, 2.0)));
    }
    ops.push(Op::Run(((target * 1.3) as usize).min(2_000_000)));
    Case { track: vec![seg], rate: r, looped: None, swapped: false, ops }
}

fn gen_long_loop(s: &mut Src) -> Case {
    let mut c = gen_loop(s);
    c.ops.push(Op::Speed(speed(s).max(0.01)));
    c.ops.push(Op::Run(s.us(100_000, 600_000)));
    c
}

/// Thousands of changes of the speed.
fn gen_glide(s: &mut Src, looped: bool) -> Case {
    let n = s.us(1_000, 6_000);
    let seed = s.below(1 << 16);
    let mut r = Rng::new(seed);
    let rate = rate(s).max(8000.0).min(200_000.0);
    let (lo, hi) = (s.uni(0.1, 2.0), s.uni(0.1, 2.0));
    let wild = s.chance(1, 2);
    let mut ops = Vec::new();
    let mut end = 0.0;
    for i in 0..n {
        let x = if wild { r.unit() } else { i as f64 / n as f64 };
        let v = lo + (hi - lo) * x;
        let k = (r.next() >> 40) as usize % 3;
        end += v * k as f64 * rate / 48000.0;
        ops.push(Op::Speed(v));
        ops.push(Op::Run(k));
    }
    ops.push(Op::Run(100));
    let len = if looped { s.us(2, 3000) } else { end as usize + s.us(0, 300) };
    let looped = if looped {
        let a = s.us(0, len - 1);
        Some((a, s.us(a + 1, len)))
    } else {
        None
    };
    Case { track: vec![Seg::Noise(seed, 1.0, len)], rate, looped, swapped: false, ops }
}

fn gen_glide_plain(s: &mut Src) -> Case {
    gen_glide(s, false)
}

fn gen_glide_loop(s: &mut Src) -> Case {
    gen_glide(s, true)
}

/// Minutes of samples.
fn gen_minutes_loop(s: &mut Src) -> Case {
    let mut c = gen_loop(s);
    c.ops.push(Op::Speed(speed(s).max(0.01)));
    c.ops.push(Op::Run(s.us(3_000_000, 8_000_000)));
    c
}

fn gen_minutes_plain(s: &mut Src) -> Case {
    let n = s.us(3_000_000, 6_000_000);
    Case { track: vec![Seg::Noise(s.below(1 << 16), 1.0, n)], rate: s.uni(40_000.0, 50_000.0), looped: None, swapped: false, ops: vec![Op::Run(n), Op::Speed(s.uni(0.3, 2.0)), Op::Run(n / 4)] }
}

/// Long silence within the track.
fn gen_rests_plain(s: &mut Src) -> Case {
    let track = rests(s, 3_000_000);
    let n: usize = track.iter().map(Seg::len).sum();
    let r = s.uni(8_000.0, 192_000.0);
    let x = s.uni(0.5, 2.0);
    let mut ops = vec![Op::Run(s.us(0, 1000)), Op::Speed(x)];
    if s.chance(1, 4) {
        // at rest
        ops.push(Op::Speed(0.0));
        ops.push(Op::Run(s.logu(1e3, 3e6) as usize));
        ops.push(Op::Speed(x));
    }
    ops.push(Op::Run(((n as f64 / (r / 48000.0) / x * 1.1) as usize).min(8_000_000)));
    Case { track, rate: r, looped: None, swapped: false, ops }
}

fn gen_rests_loop(s: &mut Src) -> Case {
    let mut c = gen_rests_plain(s);
    let n: usize = c.track.iter().map(Seg::len).sum();
    let (a, b) = (s.us(0, n), s.us(0, n));
    c.looped = Some((a.min(b).min(n - 1), a.max(b).max(a.min(b).min(n - 1) + 1)));
    c.swapped = s.chance(1, 2);
    c
}

/// Tracks of more samples than single precision can count.
fn gen_huge(s: &mut Src) -> Case {
    let n = s.us(17_000_000, 18_000_000);
    let r = rate(s).max(8000.0);
    let fast = 1.7e7 / 150_000.0 * s.uni(0.97, 1.0) / (r / 48000.0);
    let looped = match s.below(3) {
        0 => None,
        1 => Some((s.us(0, 100), n)),
        _ => {
            let b = s.us(16_800_000, n);
            Some((b - s.us(1, 1000), b))
        }
    };
    let mut ops = vec![Op::Speed(fast), Op::Run(150_000)];
    for _ in 0..3 {
        ops.push(Op::Speed(if s.chance(1, 2) { s.uni(0.01, 2.0) } else { fast / 10.0 }));
        ops.push(Op::Run(s.us(1000, 60_000)));
    }
    Case { track: vec![Seg::Noise(s.below(1 << 16), 1.0, n)], rate: r, looped, swapped: s.chance(1, 2), ops }
}

fn gen_huge_plain(s: &mut Src) -> Case {
    Case { looped: None, ..gen_huge(s) }
}

fn gen_huge_loop(s: &mut Src) -> Case {
    loop {
        let c = gen_huge(s);
        if c.looped.is_some() {
            return c;
        }
    }
}

fn mono(v: &[f32]) -> Vec<Mono> {
    v.iter().map(|x| Mono { mono: *x }).collect()
}

fn run(c: &Case, obs: &mut Obs) -> Res {
    let t = render(&c.track);
    let (a, b) = match (c.looped, c.swapped) {
        (None, _) => (0, 0),
        (Some((a, b)), false) => (a, b),
        (Some((a, b)), true) => (b, a),
    };
    let mut r = MonoResampler::new(mono(&t), c.rate, a, b);
    let n = t.len();
    let mut m = Model::new(t, c.rate, c.looped);
    let mut cur = 1.0f64;
    let mut total = 0usize;
    for op in &c.ops {
        match op {
            Op::Run(k) => {
                for _ in 0..*k {
                    m.check(r.process())?;
                }
                total += k;
                obs.compared += *k as u64;
            }
            Op::Speed(x) => {
                r.set_playback_speed(*x);
                m.speed(*x);
                cur = *x;
                obs.label("speed changed");
            }
        }
        ensure!(r.get_playback_speed() == cur, "speed set to {cur:?}, reads back {:?}", r.get_playback_speed());
    }
    obs.label_if(m.ended(), "played past the end");
    obs.label_if(n == 0, "empty track");
    obs.label_if(total > 100_000, "over 100000 samples");
    obs.label_if(m.exact, "exact positions");
    if let Some((a, b)) = c.looped {
        obs.label_if(m.pos() >= b as f64, "wrapped");
        obs.label_if(m.speed_max > (b - a) as f64, "step longer than the loop");
        obs.label_if(c.swapped, "end given first");
        obs.nontrivial = m.pos() >= b as f64;
    } else {
        obs.nontrivial = m.pos() > 0.0 && n > 1;
    }
    Ok(())
}

/// Metamorphic: a looped track equals the loop written out many times.
fn run_unrolled(c: &Case, obs: &mut Obs) -> Res {
    let t = render(&c.track);
    let (a, b) = c.looped.unwrap();
    let mut total = 0.0;
    let mut speed = 1.0;
    let mut steps = 0;
    for op in &c.ops {
        match op {
            Op::Run(k) => {
                total += *k as f64 * c.rate / 48000.0 * speed;
                steps += k;
            }
            Op::Speed(x) => speed = *x,
        }
    }
    if total > 200_000.0 {
        obs.label("too far to unroll");
        return Ok(());
    }
    let mut u = t[..b].to_vec();
    while (u.len() as f64) < total + 4.0 {
        u.extend_from_slice(&t[a..b]);
    }
    let mut l = MonoResampler::new(mono(&t), c.rate, if c.swapped { b } else { a }, if c.swapped { a } else { b });
    let mut p = MonoResampler::new(mono(&u), c.rate, 0, 0);
    let big = t.iter().fold(0f32, |m, x| m.max(x.abs())) as f64;
    let tol = 1e-5 * big + 4.0 * big * (steps as f64 * 2e-16 * (total + 1.0));
    for op in &c.ops {
        match op {
            Op::Run(k) => {
                for i in 0..*k {
                    let (x, y) = (l.process(), p.process());
                    ensure!(
                        (x as f64 - y as f64).abs() <= tol,
                        "sample {i} of a run: looped {x:?}, unrolled {y:?} (tolerance {tol:e})"
                    );
                }
                obs.compared += *k as u64;
            }
            Op::Speed(x) => {
                l.set_playback_speed(*x);
                p.set_playback_speed(*x);
            }
        }
    }
    obs.nontrivial = total >= b as f64;
    Ok(())
}

// ------------------------------------------------------------------------- C38

#[derive(Debug)]
struct Player {
    /// Where the track comes from.
    wav: Option<(WavSpec, Chunking)>,
    track: Signal,
    rate: f64,
    ops: Vec<Op>,
    clone_at: Option<usize>,
}

fn gen_player(s: &mut Src) -> Player {
    let wav = if s.chance(2, 3) {
        let mut w = gen_wav(s, 60);
        if s.chance(1, 2) {
            w.rate = rate(s).max(1.0) as u32;
        }
        Some((w, Chunking::gen(s)))
    } else {
        None
    };
    Player {
        wav,
        track: track(s),
        rate: rate(s),
        ops: ops(s, 120),
        clone_at: if s.chance(1, 4) { Some(s.us(0, 8)) } else { None },
    }
}

/// Long files and tracks.
fn gen_player_rests(s: &mut Src) -> Player {
    let mut c = gen_player(s);
    let r = s.int(8_000, 192_000);
    let n = if let Some((w, _)) = &mut c.wav {
        super::wav::resting_codes(s, w, 3_000_000);
        w.rate = r as u32;
        w.codes.len() / w.channels as usize
    } else {
        c.track = rests(s, 3_000_000);
        c.rate = r as f64;
        c.track.iter().map(Seg::len).sum()
    };
    let x = s.uni(0.5, 4.0);
    c.ops.push(Op::Speed(x));
    c.ops.push(Op::Run(((n as f64 / (r as f64 / 48000.0) / x * 1.1) as usize).min(8_000_000)));
    c
}

fn gen_player_long(s: &mut Src) -> Player {
    let mut c = gen_player(s);
    let n = s.us(66_000, 400_000);
    if let Some((w, _)) = &mut c.wav {
        w.channels = s.pick(&[1, 2, 1, 5]);
        let mut r = Rng::new(s.below(1 << 20));
        let unsigned = w.bits == 8;
        let span = 1i64 << w.bits;
        w.codes = (0..n * w.channels as usize)
            .map(|_| ((r.next() >> 16) as i64 % span - if unsigned { 0 } else { span / 2 }) as i32)
            .collect();
        w.rate = s.int(8_000, 192_000) as u32;
    }
    c.track = vec![Seg::Noise(s.below(1 << 16), 1.0, n)];
    c.rate = s.uni(8_000.0, 192_000.0);
    let r = if let Some((w, _)) = &c.wav { w.rate as f64 } else { c.rate };
    // from end to end
    let ends = n as f64 / (r / 48000.0);
    let x = if s.chance(1, 12) { ends / s.uni(3e6, 7e6) } else { s.uni(0.5, 4.0) };
    let samples = ((n as f64 / (r / 48000.0) / x * 1.1) as usize).min(8_000_000);
    c.ops.push(Op::Speed(x));
    c.ops.push(Op::Run(samples));
    c
}

fn run_player(c: &Player, obs: &mut Obs) -> Res {
    let (mut p, t, rate) = match &c.wav {
        Some((w, ch)) => {
            let bytes = encode(w);
            let mut r = ChunkedReader::new(&bytes, ch.clone());
            (MonoWav::from_source(&mut r), w.channel(0), w.rate as f64)
        }
        None => {
            let t = render(&c.track);
            (MonoWav::from_track(c.rate, mono(&t)), t, c.rate)
        }
    };
    let n = t.len();
    let mut m = Model::new(t.clone(), rate, None);
    let mut cur = 1.0;
    for (i, op) in c.ops.iter().enumerate() {
        if c.clone_at == Some(i) {
            // the clone starts over at the current speed
            p = p.clone();
            m = Model::new(t.clone(), rate, None);
            m.speed(cur);
            obs.label("cloned");
        }
        match op {
            Op::Run(k) => {
                for _ in 0..*k {
                    m.check(p.process())?;
                }
                obs.compared += *k as u64;
            }
            Op::Speed(x) => {
                p.get_mut().set_playback_speed(*x);
                m.speed(*x);
                cur = *x;
            }
        }
        ensure!(p.get().get_playback_speed() == cur, "speed set to {cur:?}, reads back {:?}", p.get().get_playback_speed());
    }
    obs.label_if(c.wav.is_some(), "from a source");
    obs.label_if(m.ended(), "played past the end");
    obs.nontrivial = n > 1 && m.pos() > 0.0;
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C07",
            rule: "A case is a track (0 to 18 million samples), a source rate, and a history of sample calls and speed changes; every output is compared with linear interpolation at the position accumulated in twice the precision. Non-trivial: the track has at least two samples and the position has moved.",
            assumptions: &["non-negative finite playback speeds, positive source rates"],
            subs: vec![
                Sub::new("playback", 1_200_000, 24_000_000, gen_plain, run),
                Sub::new("long", 200, 4_000, gen_long_plain, run),
                Sub::new("glide", 400, 8_000, gen_glide_plain, run),
                Sub::new("minutes", 6, 120, gen_minutes_plain, run),
                Sub::new("rests", 96, 1_920, gen_rests_plain, run),
                Sub::new("huge", 8, 80, gen_huge_plain, run).threads(4),
            ],
            probes: vec![],
        },
        Property {
            id: "C08",
            rule: "A case is a track, loop points (whole track, one sample, tail, inner section; either order), a source rate and a history of sample calls and speed changes; every output is compared with interpolation on the endlessly unrolled track, and with a loopless resampler on the written-out track. Non-trivial: playback wrapped at least once.",
            assumptions: &["loop start < loop end <= track length; non-negative finite playback speeds, positive source rates"],
            subs: vec![
                Sub::new("loop", 1_200_000, 24_000_000, gen_loop, run),
                Sub::new("long", 200, 8_000, gen_long_loop, run),
                Sub::new("glide", 400, 8_000, gen_glide_loop, run),
                Sub::new("minutes", 6, 120, gen_minutes_loop, run),
                Sub::new("rests", 96, 1_920, gen_rests_loop, run),
                Sub::new("unrolled", 240_000, 4_800_000, gen_loop, run_unrolled),
                Sub::new("huge", 8, 80, gen_huge_loop, run).threads(4),
            ],
            probes: vec![],
        },
        Property {
            id: "C38",
            rule: "A case is a WAV file from an independent encoder (delivered in arbitrary chunks) or a track, and a history of sample calls, speed changes through the exposed resampler, and cloning; every output is compared with the interpolated first channel. Non-trivial: at least two samples in the channel and the position has moved.",
            assumptions: &["sources that cannot be read make from_source panic by design and are not generated"],
            subs: vec![Sub::new("player", 2_400_000, 48_000_000, gen_player, run_player), Sub::new("long", 96, 2_000, gen_player_long, run_player), Sub::new("rests", 96, 1_920, gen_player_rests, run_player)],
            probes: vec![],
        },
    ]
}
