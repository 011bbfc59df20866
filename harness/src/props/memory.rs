//! C39: memory.

use crate::alloc::{live, peak, reset_peak};
use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use crate::kinds::*;
use super::wav::{encode, gen_wav, WavSpec};
use bae_rs::channels::{Channel, StandardChannel};
use bae_rs::generators::{Generator, MonoWav, Noise};
use bae_rs::sounds::{Block, BlockSP, ComplexSound, SimpleSound, Sound, StandardBlock};
use bae_rs::utils::{read_wav, write_wav};
use bae_rs::{Mono, SampleFormat, Stereo};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

/// What a part of the history (n of `total` calls) may leave behind: nothing
/// that grows with it. Compares what is held after an eighth of the calls with
/// what is held at the end.
struct Growth {
    before: i64,
    total: usize,
    early: i64,
    slack: i64,
}

impl Growth {
    fn new(total: usize, slack: i64, before: i64) -> Growth {
        Growth { before, total, early: 0, slack }
    }
    fn at(&mut self, n: usize) -> Res {
        if n == self.total / 8 {
            self.early = live() - self.before;
        }
        if n == self.total {
            let now = live() - self.before;
            ensure!(
                now <= 2 * self.early + self.slack,
                "{now} bytes are held after {n} calls, {} after {}",
                self.early,
                self.total / 8
            );
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ one object

#[derive(Debug)]
struct ObjCase {
    /// None is noise.
    spec: Option<Spec>,
    seed: u64,
    /// Samples per change of a setting.
    per: u64,
    /// How many of eight clones are made on the way.
    clones: u64,
}

fn gen_obj(s: &mut Src) -> ObjCase {
    ObjCase {
        spec: if s.chance(1, 20) { None } else { Some(spec(s, 400)) },
        seed: s.below(1 << 30),
        per: s.pick(&[1, 2, 8, 50]),
        clones: s.below(3),
    }
}

fn run_obj(c: &ObjCase, obs: &mut Obs) -> Res {
    let Some(spec) = &c.spec else {
        let before = live();
        let mut n = Noise::new();
        let first = live();
        for _ in 0..c.clones {
            n = n.clone();
        }
        for _ in 0..5000 {
            n.process();
        }
        ensure!(live() - first <= 1024, "noise holds {} bytes, {} at first", live() - before, first - before);
        obs.compared += 1;
        obs.nontrivial = true;
        return Ok(());
    };
    drop(spec.build().step(0.5));
    let before = live();
    let mut o = spec.build();
    o.step(0.25);
    let total = 8000 + 4 * (live() - before) as usize;
    let mut g = Growth::new(total, 1024, before);
    let mut heard = 0u64;
    let mut r = Rng::new(c.seed);
    let mut sp = spec.clone();
    for k in 1..=total {
        heard += (o.step(r.unit() as f32 - 0.5) != 0.0) as u64;
        if k as u64 % c.per == 0 {
            // spare the object from ending in silence at once
            let release = matches!(sp, Spec::Adsr { .. }) && k < total / 2;
            if !release {
                if let Some(t) = setting(&mut Src::random(r.next()), &sp) {
                    o.set(&t);
                    sp.apply(&t);
                }
            }
        }
        if c.clones > 0 && k % (total / 16) == 0 {
            for _ in 0..c.clones {
                let mut d = o.duplicate();
                d.step(0.5);
            }
        }
        // the bookkeeping above holds the same at any time
        g.at(k).map_err(|e| format!("{}: {e}", spec.kind()))?;
    }
    drop(o);
    drop(sp);
    let left = live() - before;
    ensure!(left == 0, "{}: {left} bytes are still held after it is dropped", spec.kind());
    obs.compared += 2;
    obs.nontrivial = heard > 0;
    Ok(())
}

// --------------------------------------------------------- sounds and channels

/// A sound that counts how many of it there are.
struct Counted {
    alive: Rc<Cell<i64>>,
    body: Vec<f32>,
    n: usize,
    id: Option<usize>,
}

impl Counted {
    fn new(alive: &Rc<Cell<i64>>, n: usize) -> Counted {
        alive.set(alive.get() + 1);
        Counted { alive: alive.clone(), body: vec![0.5; n], n: 0, id: None }
    }
}

impl Drop for Counted {
    fn drop(&mut self) {
        self.alive.set(self.alive.get() - 1);
    }
}

impl Sound for Counted {
    fn toggle_pause(&mut self) {}
    fn is_paused(&self) -> bool {
        false
    }
    fn toggle_mute(&mut self) {}
    fn is_muted(&self) -> bool {
        false
    }
    fn process(&mut self, _: f32) -> f32 {
        self.n += 1;
        self.body[self.n % self.body.len()]
    }
    fn register(&mut self, id: usize) {
        self.id = Some(id);
    }
    fn unregister(&mut self) {
        self.id = None;
    }
    fn get_id(&self) -> Option<usize> {
        self.id
    }
}

fn block(sp: &Spec) -> BlockSP {
    if sp.is_generator() {
        Arc::new(StandardBlock::from_generator(sp.build()))
    } else {
        Arc::new(StandardBlock::from_modifier(sp.build()))
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum What {
    Block,
    Simple,
    Complex,
    Mono,
    Stereo,
}

#[derive(Debug)]
struct SoundCase {
    what: What,
    specs: Vec<Spec>,
    seed: u64,
    calls: usize,
    time: u64,
    /// How often a call that is not for a sample is made in a row.
    burst: usize,
}

fn gen_sound(s: &mut Src) -> SoundCase {
    SoundCase {
        what: s.pick(&[What::Simple, What::Block, What::Complex, What::Mono, What::Stereo]),
        specs: s.list(1, 5, |s| spec(s, 40)),
        seed: s.below(1 << 30),
        calls: s.us(8000, 12_000),
        time: s.below(64 * 20_834),
        burst: if s.chance(1, 2) { 1 } else { s.us(2, 40) },
    }
}

fn run_block(c: &SoundCase, r: &mut Rng, g: &mut Growth) -> Res {
    let mut b = StandardBlock::new(c.specs[0].build(), c.specs[c.specs.len() - 1].build(), StandardBlock::default_interactor());
    for k in 1..=c.calls {
        match r.next() >> 33 & 7 {
            0 => *b.get_g_mut() = Arc::new(c.specs[0].build()),
            1 => *b.get_m_mut() = Arc::new(c.specs[0].build()),
            2 => {
                let d = StandardBlock::from_generator(c.specs[0].build());
                drop(d);
            }
            3 => (0..c.burst).for_each(|_| b.prime_input(0.5)),
            _ => {
                b.prime_input(r.unit() as f32);
                b.process();
            }
        }
        g.at(k)?;
    }
    Ok(())
}

fn toggles(s: &mut dyn Sound, r: &mut Rng) {
    match r.next() >> 33 & 3 {
        0 => s.toggle_pause(),
        1 => s.toggle_mute(),
        2 => s.register((r.next() >> 20) as usize),
        _ => s.unregister(),
    }
}

fn run_simple(c: &SoundCase, r: &mut Rng, g: &mut Growth) -> Res {
    let mut s = SimpleSound::new(1.0, 0.5, block(&c.specs[0]));
    s.extend_modifiers(c.specs[1..].iter().map(block).collect());
    for k in 1..=c.calls {
        match r.next() >> 33 & 7 {
            0 => (0..c.burst).for_each(|_| s.set_input_gain(r.unit())),
            1 => (0..c.burst).for_each(|_| s.set_output_gain(r.unit())),
            2 => (0..c.burst).for_each(|_| toggles(&mut s, r)),
            _ => drop(s.process(r.unit() as f32)),
        }
        g.at(k)?;
    }
    Ok(())
}

fn run_complex(c: &SoundCase, r: &mut Rng, g: &mut Growth) -> Res {
    let mut s = ComplexSound::new(1.0, 0.5);
    let mut nodes = vec![s.get_input_gain(), s.get_output_gain()];
    nodes.extend(c.specs.iter().map(|p| s.add_block(block(p))));
    for k in 1..=c.calls {
        let (a, b) = ((r.next() >> 33) as usize % nodes.len(), (r.next() >> 33) as usize % nodes.len());
        match r.next() >> 33 & 7 {
            0 => s.add_connection(nodes[a], nodes[b]),
            1 => (0..c.burst).for_each(|_| s.remove_connection(nodes[a], nodes[b])),
            2 => (0..c.burst).for_each(|_| toggles(&mut s, r)),
            3 => drop(s.get_nodes()),
            _ => drop(s.process(r.unit() as f32)),
        }
        g.at(k)?;
    }
    Ok(())
}

fn run_channel<SF: SampleFormat + 'static>(c: &SoundCase, r: &mut Rng, g: &mut Growth) -> Res {
    let mut ch = StandardChannel::<SF>::new(0.5);
    ch.set_process_time(Duration::from_nanos(c.time));
    let alive = Rc::new(Cell::new(0));
    let mut ids = Vec::with_capacity(8);
    for k in 1..=c.calls {
        match r.next() >> 33 & 7 {
            0 if r.next() >> 40 & 1 == 0 => {
                // Ids never given, or taken out before.
                for _ in 0..c.burst {
                    let id = (r.next() >> 40) as usize % (4 * c.calls);
                    if !ids.contains(&id) {
                        ch.remove_sound(id);
                    }
                }
            }
            0 | 1 if ids.len() < 8 => {
                let mut h: Arc<dyn Sound> = if r.next() >> 40 & 1 == 0 {
                    Arc::new(Counted::new(&alive, 100))
                } else {
                    Arc::new(SimpleSound::new(1.0, 1.0, block(&c.specs[0])))
                };
                ch.add_sound(&mut h);
                ids.push(h.get_id().unwrap());
            }
            2 | 3 if !ids.is_empty() => {
                let i = (r.next() >> 33) as usize % ids.len();
                ch.remove_sound(ids.swap_remove(i));
            }
            4 => (0..c.burst).for_each(|_| ch.set_gain(r.unit())),
            5 => ch.set_process_time(Duration::from_nanos((r.unit() * c.time as f64) as u64)),
            _ => ch.process(),
        }
        g.at(k)?;
    }
    Ok(())
}

/// Every sound taken out of a channel is let go of by the next processing.
fn run_released<SF: SampleFormat + 'static>(c: &SoundCase, r: &mut Rng) -> Res {
    let mut ch = StandardChannel::<SF>::new(0.5);
    ch.set_process_time(Duration::from_nanos(c.time));
    let alive = Rc::new(Cell::new(0));
    let mut ids = Vec::new();
    for k in 0..300 {
        match r.next() >> 33 & 3 {
            0 => {
                let mut h: Arc<dyn Sound> = Arc::new(Counted::new(&alive, 3));
                ch.add_sound(&mut h);
                ids.push(h.get_id().unwrap());
            }
            1 if !ids.is_empty() => {
                let i = (r.next() >> 33) as usize % ids.len();
                ch.remove_sound(ids.swap_remove(i));
            }
            _ => {
                ch.process();
                ensure!(alive.get() == ids.len() as i64, "call {k}: {} sounds exist, {} are in the channel", alive.get(), ids.len());
            }
        }
    }
    drop(ch);
    ensure!(alive.get() == 0, "{} sounds exist after the channel is dropped", alive.get());
    Ok(())
}

fn run_sound(c: &SoundCase, obs: &mut Obs) -> Res {
    // what the first use of anything on this thread allocates for good
    for sp in &c.specs {
        sp.build().step(0.5);
    }
    let once = |seed: u64| -> Res {
        let mut r = Rng::new(seed);
        let slack = if matches!(c.what, What::Mono | What::Stereo) { 65_536 } else { 8_192 };
        let mut g = Growth::new(c.calls, slack, live());
        match c.what {
            What::Block => run_block(c, &mut r, &mut g),
            What::Simple => run_simple(c, &mut r, &mut g),
            What::Complex => run_complex(c, &mut r, &mut g),
            What::Mono => run_channel::<Mono>(c, &mut r, &mut g),
            What::Stereo => run_channel::<Stereo>(c, &mut r, &mut g),
        }
    };
    let before = live();
    once(c.seed).map_err(|e| format!("{:?}: {e}", c.what))?;
    let left = live() - before;
    ensure!(left == 0, "{:?}: {left} bytes are still held after it is dropped", c.what);
    match c.what {
        What::Mono => run_released::<Mono>(c, &mut Rng::new(c.seed ^ 1))?,
        What::Stereo => run_released::<Stereo>(c, &mut Rng::new(c.seed ^ 1))?,
        _ => {}
    }
    obs.compared += 2;
    obs.label(match c.what {
        What::Block => "block",
        What::Simple => "simple",
        What::Complex => "complex",
        _ => "channel",
    });
    obs.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------------ files

#[derive(Debug)]
struct FileCase {
    wav: WavSpec,
    clip: bool,
}

fn gen_file(s: &mut Src) -> FileCase {
    FileCase { wav: gen_wav(s, 800), clip: s.chance(1, 2) }
}

fn run_file(c: &FileCase, obs: &mut Obs) -> Res {
    let file = encode(&c.wav);
    let (n, ch) = (c.wav.codes.len() as i64, c.wav.channels as i64);
    let len = file.len() as i64;
    let fixed = 16_384 + 256 * ch;
    let before = live();
    reset_peak();
    let (_, tracks) = read_wav(&mut &file[..]).map_err(|e| format!("{e}"))?;
    let (most, held) = (peak() - before, live() - before);
    ensure!(most <= 24 * n + 8 * len + fixed, "reading {len} bytes of {ch} channels takes {most} bytes");
    ensure!(held <= 12 * n + fixed, "{n} samples in {ch} channels hold {held} bytes after reading");
    let mut out = Vec::with_capacity(4 * n as usize + 256);
    let before = live();
    reset_peak();
    let size: i64 = tracks.iter().map(|t| 4 * t.capacity() as i64).sum();
    let res = write_wav(tracks, c.wav.bits, &mut out, c.clip);
    let most = peak() - before;
    ensure!(res.is_ok(), "writing what was read: {res:?}");
    ensure!(most <= 32 * n + fixed, "writing {n} samples in {ch} channels takes {most} bytes");
    drop(res);
    let left = live() - before;
    // the tracks given are used up
    ensure!(left <= -size, "writing {n} samples leaves {} bytes", left + size);
    drop(out);
    let before = live();
    let mut p = MonoWav::from_source(&mut &file[..]);
    p.process();
    let held = live() - before;
    ensure!(held <= 12 * n + fixed, "a player of {n} samples in {ch} channels holds {held} bytes");
    let d = p.clone();
    drop(p);
    drop(d);
    let left = live() - before;
    ensure!(left == 0, "{left} bytes are still held after a player and its clone are dropped");
    obs.compared += 6;
    obs.nontrivial = n > 0;
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C39",
        rule: "A case is an object of any kind used for thousands of samples with ever new settings and clones; a block, sound or channel with thousands of calls (gains, replaced parts, connections, sounds added and removed); or a WAV file read, written and played. The bytes held (counted by the allocator) after all calls are compared with those after an eighth of them, and must be none after dropping; sounds removed from a channel must be dropped. Non-trivial: an output other than 0 (objects), samples in the file.",
        assumptions: &["what a thread or the process allocates once is not counted"],
        subs: vec![
            Sub::new("objects", 60_000, 1_200_000, gen_obj, run_obj),
            Sub::new("sounds", 12_000, 240_000, gen_sound, run_sound),
            Sub::new("files", 60_000, 1_200_000, gen_file, run_file),
        ],
        probes: vec![],
    }]
}
