//! Long rests: sounds, blocks and channels of pieces that are exactly silent
//! for up to minutes and then sound again, or are paused or muted for as long.
//! Nothing may fall asleep, be forgotten or be given up in between.

use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use bae_rs::channels::{Channel, StandardChannel};
use bae_rs::generators::Generator;
use bae_rs::modifiers::Modifier;
use bae_rs::sounds::{Block, BlockSP, ComplexSound, SimpleSound, Sound, StandardBlock};
use bae_rs::Mono;
use std::collections::VecDeque;
use std::sync::Arc;
use std::time::Duration;

/// Rests and bursts in turns, then sound for good. Samples are small multiples
/// of 1/1024, so sums are exact.
#[derive(Clone, Debug)]
pub struct Plan {
    seed: u64,
    parts: Vec<(usize, usize)>,
}

fn plan(s: &mut Src, most: usize) -> Plan {
    let mut left = most;
    let mut parts = Vec::new();
    for _ in 0..s.us(1, 3) {
        let rest = match s.below(4) {
            0 => s.us(0, 100),
            1 => s.logu(100.0, left.max(200) as f64) as usize,
            _ => s.us(left / 4, left),
        }
        .min(left);
        parts.push((rest, 1 + s.size(2000)));
        left -= rest;
    }
    Plan { seed: s.below(1 << 16), parts }
}

#[derive(Clone)]
struct Pulse {
    plan: Plan,
    r: Rng,
    part: usize,
    at: usize,
}

impl Pulse {
    fn new(p: &Plan) -> Pulse {
        Pulse { plan: p.clone(), r: Rng::new(p.seed), part: 0, at: 0 }
    }
    fn next(&mut self) -> f32 {
        while let Some((rest, burst)) = self.plan.parts.get(self.part) {
            if self.at >= rest + burst {
                self.at = 0;
                self.part += 1;
                continue;
            }
            self.at += 1;
            if self.at <= *rest {
                return 0.0;
            }
            break;
        }
        ((self.r.next() >> 20) % 2001) as f32 / 1024.0 - 1000.0 / 1024.0
    }
}

impl Generator for Pulse {
    fn process(&mut self) -> f32 {
        self.next()
    }
}

#[derive(Clone, Debug)]
enum Mod {
    /// Adds something of its own now and then.
    Add(Plan),
    /// Gives its input back so many samples later.
    Late(usize),
    Plain,
}

#[derive(Clone)]
enum ModState {
    Add(Pulse),
    Late(VecDeque<f32>),
    Plain,
}

impl Mod {
    fn build(&self) -> ModState {
        match self {
            Mod::Add(p) => ModState::Add(Pulse::new(p)),
            Mod::Late(n) => ModState::Late(std::iter::repeat(0.0).take(*n).collect()),
            Mod::Plain => ModState::Plain,
        }
    }
}

impl Modifier for ModState {
    fn process(&mut self, x: f32) -> f32 {
        match self {
            ModState::Add(p) => x + p.next(),
            ModState::Late(v) => {
                v.push_back(x);
                v.pop_front().unwrap()
            }
            ModState::Plain => x,
        }
    }
}

#[derive(Clone, Debug)]
struct Node {
    gen: Option<Plan>,
    m: Mod,
}

fn node(s: &mut Src, most: usize) -> Node {
    Node {
        gen: if s.chance(1, 2) { Some(plan(s, most)) } else { None },
        m: match s.below(3) {
            0 => Mod::Add(plan(s, most)),
            1 => Mod::Late(if s.chance(1, 3) { s.logu(1e3, 1e6) as usize } else { s.us(0, 100) }),
            _ => Mod::Plain,
        },
    }
}

struct Both {
    g: Option<Pulse>,
    m: ModState,
}

impl Both {
    fn new(n: &Node) -> Both {
        Both { g: n.gen.as_ref().map(Pulse::new), m: n.m.build() }
    }
    fn step(&mut self, x: f32) -> f32 {
        let g = self.g.as_mut().map_or(0.0, |g| g.next());
        g + self.m.process(x)
    }
}

struct Silent;
impl Generator for Silent {
    fn process(&mut self) -> f32 {
        0.0
    }
}

fn block(n: &Node) -> StandardBlock {
    match &n.gen {
        Some(p) => StandardBlock::new(Pulse::new(p), n.m.build(), Arc::new(|g, m| g + m)),
        None => StandardBlock::new(Silent, n.m.build(), Arc::new(|g, m| g + m)),
    }
}

/// A chain of blocks as a simple or a complex sound; the complex one may also
/// have its first block heard directly.
#[derive(Clone, Debug)]
struct Voice {
    complex: bool,
    direct: bool,
    nodes: Vec<Node>,
}

fn voice(s: &mut Src, most: usize) -> Voice {
    Voice { complex: s.chance(1, 2), direct: s.chance(1, 2), nodes: s.list(1, 3, |s| node(s, most)) }
}

impl Voice {
    fn build(&self) -> Box<dyn Sound> {
        if self.complex {
            let mut c = ComplexSound::new(1.0, 1.0);
            let (i, o) = (c.get_input_gain(), c.get_output_gain());
            let ids: Vec<_> = self.nodes.iter().map(|n| c.add_block(Arc::new(block(n)))).collect();
            c.add_connection(i, ids[0]);
            for w in ids.windows(2) {
                c.add_connection(w[0], w[1]);
            }
            c.add_connection(*ids.last().unwrap(), o);
            if self.direct && ids.len() > 1 {
                c.add_connection(ids[0], o);
            }
            Box::new(c)
        } else {
            let mut v = self.nodes.iter().map(|n| Arc::new(block(n)) as BlockSP);
            let mut c = SimpleSound::new(1.0, 1.0, v.next().unwrap());
            c.extend_modifiers(v.collect());
            Box::new(c)
        }
    }
    fn shared(&self) -> Arc<dyn Sound> {
        struct W(Box<dyn Sound>);
        impl Sound for W {
            fn toggle_pause(&mut self) {
                self.0.toggle_pause()
            }
            fn is_paused(&self) -> bool {
                self.0.is_paused()
            }
            fn toggle_mute(&mut self) {
                self.0.toggle_mute()
            }
            fn is_muted(&self) -> bool {
                self.0.is_muted()
            }
            fn process(&mut self, x: f32) -> f32 {
                self.0.process(x)
            }
            fn register(&mut self, id: usize) {
                self.0.register(id)
            }
            fn unregister(&mut self) {
                self.0.unregister()
            }
            fn get_id(&self) -> Option<usize> {
                self.0.get_id()
            }
        }
        Arc::new(W(self.build()))
    }
}

struct Model {
    nodes: Vec<Both>,
    direct: bool,
}

impl Model {
    fn new(v: &Voice) -> Model {
        Model { nodes: v.nodes.iter().map(Both::new).collect(), direct: v.complex && v.direct && v.nodes.len() > 1 }
    }
    fn step(&mut self, x: f32) -> f32 {
        let first = self.nodes[0].step(x);
        let last = self.nodes[1..].iter_mut().fold(first, |x, n| n.step(x));
        if self.direct {
            first + last
        } else {
            last
        }
    }
}

const MOST: usize = 3_600_000;

// ---------------------------------------------------------------- one block

#[derive(Debug)]
pub struct BlockCase {
    node: Node,
    input: Signal,
}

pub fn gen_block(s: &mut Src) -> BlockCase {
    BlockCase { node: node(s, MOST), input: rests(s, MOST) }
}

pub fn run_block(c: &BlockCase, obs: &mut Obs) -> Res {
    let mut b = block(&c.node);
    let mut m = Both::new(&c.node);
    let mut heard = 0;
    for (n, x) in render(&c.input).into_iter().enumerate() {
        b.prime_input(x);
        let y = b.process();
        let want = m.step(x);
        ensure!(y == want, "sample {n}: {y:?}, expected {want:?}");
        heard += (y != 0.0) as u64;
        obs.compared += 1;
    }
    obs.nontrivial = heard > 0;
    Ok(())
}

// ---------------------------------------------------------------- one sound

#[derive(Debug, Clone, Copy)]
enum Act {
    Pause,
    Mute,
    Register(usize),
    Unregister,
}

#[derive(Debug)]
pub struct SoundCase {
    voice: Voice,
    input: Signal,
    /// After so many further samples, that.
    acts: Vec<(usize, Act)>,
}

pub fn gen_simple(s: &mut Src) -> SoundCase {
    let v = voice(s, MOST);
    SoundCase { voice: Voice { complex: false, ..v }, input: rests(s, MOST), acts: vec![] }
}

pub fn gen_complex(s: &mut Src) -> SoundCase {
    let v = voice(s, MOST);
    SoundCase { voice: Voice { complex: true, ..v }, input: rests(s, MOST), acts: vec![] }
}

pub fn gen_paused(s: &mut Src) -> SoundCase {
    let most = 40_000;
    let mut v = voice(s, most);
    if s.chance(1, 2) {
        // never at rest itself
        v.nodes[0].gen = Some(Plan { seed: s.below(1 << 16), parts: vec![] });
    }
    let acts = s.list(1, 8, |s| {
        let n = match s.below(4) {
            0 => s.us(0, 10),
            1 => s.us(MOST / 8, MOST / 2),
            _ => s.logu(10.0, MOST as f64 / 2.0) as usize,
        };
        let a = match s.below(8) {
            0..=3 => Act::Pause,
            4..=5 => Act::Mute,
            6 => Act::Register(s.us(0, 9)),
            _ => Act::Unregister,
        };
        (n, a)
    });
    SoundCase { voice: v, input: rests(s, 200_000), acts }
}

pub fn run_sound(c: &SoundCase, obs: &mut Obs) -> Res {
    let mut sound = c.voice.build();
    let mut m = Model::new(&c.voice);
    let (mut paused, mut muted, mut id) = (false, false, None);
    let input = render(&c.input);
    let tail = if c.acts.is_empty() { input.len() } else { 5_000 };
    let mut n = 0usize;
    let mut heard = 0u64;
    for k in 0..=c.acts.len() {
        let run = c.acts.get(k).map_or(tail, |a| a.0);
        for _ in 0..run {
            let x = if input.is_empty() { 0.0 } else { input[n % input.len()] };
            let y = sound.process(x);
            let mut want = if paused { 0.0 } else { m.step(x) };
            if muted {
                want = 0.0;
            }
            ensure!(y == want, "sample {n}: {y:?}, expected {want:?} (paused {paused}, muted {muted})");
            heard += (y != 0.0) as u64;
            n += 1;
        }
        if let Some((_, a)) = c.acts.get(k) {
            match a {
                Act::Pause => {
                    sound.toggle_pause();
                    paused = !paused;
                }
                Act::Mute => {
                    sound.toggle_mute();
                    muted = !muted;
                }
                Act::Register(i) => {
                    sound.register(*i);
                    id = Some(*i);
                }
                Act::Unregister => {
                    sound.unregister();
                    id = None;
                }
            }
        }
        ensure!(sound.is_paused() == paused && sound.is_muted() == muted && sound.get_id() == id, "after {n} samples: paused {}, muted {}, id {:?}", sound.is_paused(), sound.is_muted(), sound.get_id());
    }
    obs.compared += n as u64;
    obs.label_if(n > 1_000_000, "more than a million samples");
    obs.label(if c.voice.complex { "complex" } else { "simple" });
    obs.nontrivial = heard > 0;
    Ok(())
}

// ---------------------------------------------------------------- a channel

#[derive(Debug)]
pub struct ChannelCase {
    voices: Vec<Voice>,
    gain: f64,
    /// Blocks of so many samples, so many times.
    blocks: Vec<(usize, usize)>,
    /// A sound removed for good, before the given entry of `blocks`.
    gone: Option<(usize, usize)>,
}

pub fn gen_channel(s: &mut Src) -> ChannelCase {
    let most = 2_000_000;
    let voices = s.list(1, 4, |s| {
        let mut v = voice(s, most);
        if s.chance(1, 8) {
            // nothing at all
            v.nodes = vec![Node { gen: None, m: Mod::Plain }];
        }
        v
    });
    let mut blocks = Vec::new();
    let mut left = most + 10_000;
    for _ in 0..s.us(1, 4) {
        let n = match s.below(4) {
            0 => 480,
            1 => s.us(1, 100),
            2 => s.us(100, 5000),
            _ => s.us(5000, 200_000),
        };
        let total = s.us(left / 4, left);
        blocks.push((n, total / n + 1));
        left -= total;
    }
    let gone = if s.chance(1, 3) { Some((s.us(0, voices.len() - 1), s.us(0, blocks.len() - 1))) } else { None };
    ChannelCase { gain: s.pick(&[1.0, 0.5, -0.25, 2.0]), voices, blocks, gone }
}

pub fn run_channel(c: &ChannelCase, obs: &mut Obs) -> Res {
    let mut ch: StandardChannel<Mono> = StandardChannel::new(c.gain);
    let mut m: Vec<(Model, usize, bool)> = Vec::new();
    for v in &c.voices {
        let mut h = v.shared();
        ch.add_sound(&mut h);
        match h.get_id() {
            Some(id) => m.push((Model::new(v), id, true)),
            None => return Err("an added sound has no id".into()),
        }
    }
    let (mut at, mut heard) = (0u64, 0u64);
    for (k, (n, times)) in c.blocks.iter().enumerate() {
        if let Some((v, b)) = c.gone {
            if b == k {
                ch.remove_sound(m[v].1);
                m[v].2 = false;
            }
        }
        // a few nanoseconds above whole samples, as times are truncated
        ch.set_process_time(Duration::from_nanos((*n as u64 * 1_000_000_000).div_ceil(48_000)));
        for _ in 0..*times {
            ch.process();
            let out = ch.get_output();
            ensure!(out.len() == *n, "a block of {} samples, expected {n}", out.len());
            for y in out {
                let sum: f32 = m.iter_mut().filter(|v| v.2).map(|v| v.0.step(0.0)).sum();
                let want = sum * c.gain as f32;
                ensure!(y.mono == want, "sample {at}: {:?}, expected {want:?}", y.mono);
                heard += (want != 0.0) as u64;
                at += 1;
            }
        }
    }
    obs.compared += at;
    obs.label_if(c.gone.is_some(), "a sound removed");
    obs.nontrivial = heard > 0;
    Ok(())
}
