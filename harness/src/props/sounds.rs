//! C27: blocks; C28: simple sounds; C29, C30: complex sounds; C33: pause, mute
//! and registration.
//!
//! Most cases use recording blocks whose outputs are small integers depending
//! on everything they were ever given, so that sums are exact and any step
//! missed, repeated or swapped shows.

use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use crate::kinds::*;
use bae_rs::generators::Generator;
use bae_rs::modifiers::{Delay, Gain, Modifier};
use bae_rs::sounds::{Block, BlockSP, ComplexSound, GraphNode, Inter, SimpleSound, Sound, StandardBlock};
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

// ------------------------------------------------------------- recording pieces

/// What a recording block does with its input.
fn respond(seed: u64, state: &mut i64, input: f64) -> f64 {
    let q = (input * 64.0).round() as i64;
    let out = (q.wrapping_mul(2 * (seed as i64 % 50) + 3).wrapping_add(*state * 7).wrapping_add(seed as i64 * 13 + 1)).rem_euclid(1021) - 510;
    *state = (*state * 5 + out + q % 1009).rem_euclid(1009);
    out as f64
}

#[derive(Debug, Clone, PartialEq)]
enum Event {
    Prime(usize, f32),
    Process(usize),
}

type Log = Rc<RefCell<Vec<Event>>>;

struct Rec {
    id: usize,
    seed: u64,
    acc: f64,
    state: i64,
    log: Log,
}

impl Block for Rec {
    fn prime_input(&mut self, x: f32) {
        self.acc += x as f64;
        self.log.borrow_mut().push(Event::Prime(self.id, x));
    }
    fn process(&mut self) -> f32 {
        self.log.borrow_mut().push(Event::Process(self.id));
        let y = respond(self.seed, &mut self.state, self.acc);
        self.acc = 0.0;
        y as f32
    }
}

/// Blocks used in sounds.
#[derive(Debug, Clone, PartialEq)]
enum Bk {
    Rec(u64),
    /// BAE's own blocks with exact arithmetic.
    Gain(i32),
    Delay(usize),
}

fn bk(s: &mut Src) -> Bk {
    match s.below(6) {
        0 => Bk::Gain(s.int(-3, 3) as i32),
        1 => Bk::Delay(s.us(0, 3)),
        _ => Bk::Rec(s.below(500)),
    }
}

fn make(b: &Bk, id: usize, log: &Log) -> BlockSP {
    match b {
        Bk::Rec(seed) => Arc::new(Rec { id, seed: *seed, acc: 0.0, state: 0, log: log.clone() }),
        Bk::Gain(k) => Arc::new(StandardBlock::from_modifier(Gain::new(*k as f32))),
        Bk::Delay(n) => {
            Arc::new(StandardBlock::from_modifier(Delay::new(Duration::from_secs_f64(*n as f64 / 48000.0 + 1e-7))))
        }
    }
}

/// Model of a block.
struct Mb {
    kind: Bk,
    state: i64,
    line: VecDeque<f64>,
    /// Gains of the input and output nodes.
    gain: f64,
    node: bool,
    pending: f64,
}

impl Mb {
    fn new(kind: &Bk) -> Mb {
        let n = if let Bk::Delay(n) = kind { *n } else { 0 };
        Mb { kind: kind.clone(), state: 0, line: vec![0.0; n].into(), gain: 1.0, node: false, pending: 0.0 }
    }
    fn gain(g: f64) -> Mb {
        Mb { kind: Bk::Gain(0), state: 0, line: VecDeque::new(), gain: g, node: true, pending: 0.0 }
    }
    fn step(&mut self) -> f64 {
        let x = self.pending;
        self.pending = 0.0;
        if self.node {
            return x * self.gain;
        }
        match &self.kind {
            Bk::Rec(seed) => respond(*seed, &mut self.state, x),
            Bk::Gain(k) => x * *k as f64,
            Bk::Delay(_) => {
                self.line.push_back(x);
                self.line.pop_front().unwrap()
            }
        }
    }
}

/// Single-precision sums of such values are exact.
fn exact(x: f64) -> bool {
    x.abs() < 8192.0 && (x * 64.0).fract() == 0.0
}

fn gain(s: &mut Src) -> f64 {
    match s.below(4) {
        0 => s.pick(&[-2.0, -3.0, 8.0, -0.5, 0.125, -16.0, 5.0, -1.5]),
        _ => s.pick(&[1.0, 1.0, 0.5, -1.0, 2.0, 0.0, -0.25, 3.0]),
    }
}

fn small(s: &mut Src) -> f32 {
    match s.below(16) {
        0..=3 => 0.0,
        4..=7 => 1.0,
        8 => s.int(-3000, 3000) as f32,
        9 => s.int(-20, 20) as f32 / 16.0,
        _ => s.int(-20, 20) as f32,
    }
}

/// Any size.
fn wide(s: &mut Src) -> f32 {
    let x = s.logu(1e-6, 1e9) as f32;
    if s.chance(1, 2) {
        x
    } else {
        -x
    }
}

// ------------------------------------------------------------------ C27: blocks

struct RecGen {
    id: usize,
    n: i64,
    seed: u64,
    log: Rc<RefCell<Vec<(char, usize, f32, f32)>>>,
}
impl Generator for RecGen {
    fn process(&mut self) -> f32 {
        let y = ((self.seed as i64 * 31 + self.n * 17 + self.n * self.n) % 101 - 50) as f32;
        self.n += 1;
        self.log.borrow_mut().push(('g', self.id, 0.0, y));
        y
    }
}
struct RecMod {
    id: usize,
    seed: u64,
    state: i64,
    log: Rc<RefCell<Vec<(char, usize, f32, f32)>>>,
}
impl Modifier for RecMod {
    fn process(&mut self, x: f32) -> f32 {
        let y = respond(self.seed, &mut self.state, x as f64) as f32;
        self.log.borrow_mut().push(('m', self.id, x, y));
        y
    }
}

#[derive(Debug, Clone)]
enum BOp {
    Prime(f32),
    /// The same input many times.
    Flood(f32, usize),
    Process,
    /// Replace the generator or modifier.
    NewG(u64),
    NewM(u64),
}

#[derive(Debug)]
struct BCase {
    g: u64,
    m: u64,
    how: u8,
    ops: Vec<BOp>,
    /// How often the whole history is gone through.
    reps: usize,
}

fn gen_block(s: &mut Src) -> BCase {
    BCase {
        g: s.below(500),
        m: s.below(500),
        how: s.below(6) as u8,
        reps: 1,
        ops: s.list(1, 40, |s| match s.below(10) {
            0..=4 => BOp::Process,
            5..=7 => BOp::Prime(small(s) / 4.0),
            8 => BOp::Prime(wide(s)),
            _ => {
                if s.chance(1, 2) {
                    BOp::NewG(s.below(500))
                } else {
                    BOp::NewM(s.below(500))
                }
            }
        }),
    }
}

/// Some seconds of samples.
fn gen_block_long(s: &mut Src) -> BCase {
    let mut c = gen_block(s);
    if !s.chance(1, 3) {
        c.ops.retain(|o| matches!(o, BOp::Prime(_) | BOp::Process));
    }
    c.ops.push(BOp::Process);
    c.reps = s.us(70_000, 200_000) / c.ops.iter().filter(|o| matches!(o, BOp::Process)).count();
    c
}

/// Thousands of inputs for one sample.
fn gen_block_flood(s: &mut Src) -> BCase {
    let mut c = gen_block(s);
    for _ in 0..s.us(1, 3) {
        let at = s.us(0, c.ops.len());
        let n = if s.chance(1, 8) { s.us(60_000, 70_000) } else { s.size(5_000) };
        c.ops.insert(at, BOp::Flood(s.pick(&[1.0, -1.0, 0.25, 0.0]), n));
    }
    c.ops.push(BOp::Process);
    c.ops.push(BOp::Process);
    c
}

fn run_block(c: &BCase, obs: &mut Obs) -> Res {
    let log = Rc::new(RefCell::new(Vec::new()));
    let calls = Rc::new(RefCell::new(Vec::new()));
    let g = RecGen { id: 0, n: 0, seed: c.g, log: log.clone() };
    let m = RecMod { id: 1, seed: c.m, state: 0, log: log.clone() };
    let mut count = 0.0f32;
    let own: Inter = {
        let calls = calls.clone();
        Arc::new(move |a: f32, b: f32| {
            count += 1.0;
            let y = a * 3.0 - b + count * 1000.0;
            calls.borrow_mut().push((a, b, y));
            y
        })
    };
    let mut b = match c.how {
        0 => StandardBlock::from_generator(g),
        1 => StandardBlock::from_modifier(m),
        2 => StandardBlock::new(g, m, StandardBlock::default_interactor()),
        3 => StandardBlock::new(g, m, StandardBlock::generator_passthrough()),
        4 => StandardBlock::new(g, m, StandardBlock::modifier_passthrough()),
        _ => StandardBlock::new(g, m, own),
    };
    let (mut has_g, mut has_m) = (c.how != 1, c.how != 0);
    let (mut gid, mut mid) = (0, 1);
    let mut next = 2;
    let mut sum = 0.0f32;
    // what rounding of the sum may come to
    let mut tol = 0.0f32;
    let mut processed = 0;
    let mut primed = 0;
    let all = (0..c.reps).flat_map(|_| c.ops.iter());
    for (k, op) in all.enumerate() {
        match op {
            BOp::Prime(x) => {
                b.prime_input(*x);
                sum += x;
                tol += 2e-7 * (sum.abs() + x.abs());
                primed += 1;
                ensure!(log.borrow().is_empty(), "op {k}: giving input ran {:?}", log.borrow());
            }
            BOp::Flood(x, n) => {
                for _ in 0..*n {
                    b.prime_input(*x);
                    sum += x;
                    // Exact unless there are other inputs.
                    tol += if tol == 0.0 { 0.0 } else { 2e-7 * (sum.abs() + x.abs()) };
                }
                primed += n;
                ensure!(log.borrow().is_empty(), "op {k}: giving input ran {:?}", log.borrow());
            }
            BOp::NewG(seed) => {
                let g = Arc::new(RecGen { id: next, n: 0, seed: *seed, log: log.clone() });
                let p = Arc::as_ptr(&g) as *const u8;
                *b.get_g_mut() = g;
                ensure!(Arc::as_ptr(b.get_g()) as *const u8 == p, "op {k}: get_g gives another generator");
                gid = next;
                next += 1;
                has_g = true;
            }
            BOp::NewM(seed) => {
                let m = Arc::new(RecMod { id: next, seed: *seed, state: 0, log: log.clone() });
                let p = Arc::as_ptr(&m) as *const u8;
                *b.get_m_mut() = m;
                ensure!(Arc::as_ptr(b.get_m()) as *const u8 == p, "op {k}: get_m gives another modifier");
                mid = next;
                next += 1;
                has_m = true;
            }
            BOp::Process => {
                let y = b.process();
                processed += 1;
                let l: Vec<_> = log.borrow_mut().drain(..).collect();
                let gs: Vec<_> = l.iter().filter(|e| e.0 == 'g').collect();
                let ms: Vec<_> = l.iter().filter(|e| e.0 == 'm').collect();
                ensure!(gs.len() == has_g as usize, "op {k}: the generator was advanced {} times", gs.len());
                ensure!(ms.len() == has_m as usize, "op {k}: the modifier was run {} times", ms.len());
                ensure!(gs.iter().all(|e| e.1 == gid), "op {k}: a generator that was replaced is used");
                ensure!(ms.iter().all(|e| e.1 == mid), "op {k}: a modifier that was replaced is used");
                if has_m {
                    ensure!((ms[0].2 - sum).abs() <= tol, "op {k}: the modifier was given {:?}, the inputs sum to {sum:?}", ms[0].2);
                }
                // zero generator and passthrough where none was given
                let gv = if has_g { gs[0].3 } else { 0.0 };
                let mv = if has_m { ms[0].3 } else { sum };
                let want = match c.how {
                    0 | 3 => gv,
                    1 | 4 => mv,
                    2 => gv * mv,
                    _ => {
                        let cs: Vec<(f32, f32, f32)> = calls.borrow_mut().drain(..).collect();
                        ensure!(cs.len() == 1, "op {k}: the interactor was called {} times", cs.len());
                        ensure!(cs[0].0 == gv && cs[0].1 == mv, "op {k}: the interactor was given {:?}, not {:?}", cs[0], (gv, mv));
                        cs[0].2
                    }
                };
                ensure!(y == want, "op {k}: returned {y:?}, expected {want:?} (generator {gv:?}, modifier {mv:?})");
                sum = 0.0;
                tol = 0.0;
                obs.compared += 1;
            }
        }
    }
    obs.nontrivial = processed >= 2 && primed >= 1;
    Ok(())
}

/// BAE's own generators and modifiers in a block against the bare ones.
#[derive(Debug)]
struct RealBlock {
    g: Spec,
    m: Spec,
    how: u8,
    /// Given as the input in two parts: the signal times this, and this.
    level: f32,
    offset: f32,
    sig: Signal,
}

fn gen_real_block(s: &mut Src) -> RealBlock {
    RealBlock {
        level: if s.chance(1, 3) { wide(s) } else { 1.0 },
        offset: match s.below(4) {
            0 => wide(s),
            1 => small(s),
            _ => 0.0,
        },
        g: gen_spec(s, 80),
        m: mod_spec(s, 80),
        how: s.below(3) as u8,
        sig: signal(s, 120),
    }
}

/// Minutes of samples.
fn gen_block_minutes(s: &mut Src) -> RealBlock {
    RealBlock { level: 1.0, offset: 0.0, sig: vec![Seg::Noise(s.below(1 << 16), 1.0, s.us(3_000_000, 8_000_000))], ..gen_real_block(s) }
}

fn run_real_block(c: &RealBlock, obs: &mut Obs) -> Res {
    let mut b = match c.how {
        0 => StandardBlock::from_generator(c.g.build()),
        1 => StandardBlock::from_modifier(c.m.build()),
        _ => StandardBlock::new(c.g.build(), c.m.build(), StandardBlock::default_interactor()),
    };
    let (mut g, mut m) = (c.g.build(), c.m.build());
    for (n, x) in render(&c.sig).into_iter().enumerate() {
        let x = x * c.level;
        b.prime_input(x);
        if c.offset != 0.0 {
            b.prime_input(c.offset);
        }
        let y = b.process();
        let (a, d) = (g.step(0.0), m.step(x + c.offset));
        let want = match c.how {
            0 => a,
            1 => d,
            _ => a * d,
        };
        let ok = y == want || (y.is_nan() && want.is_nan()) || (y - want).abs() <= 2e-7 * want.abs();
        ensure!(ok, "sample {n}: {y:?}, the {} and {} by themselves give {want:?}", c.g.kind(), c.m.kind());
        obs.compared += 1;
        obs.nontrivial |= want != 0.0;
    }
    Ok(())
}

// ----------------------------------------------------------- C28: simple sounds

#[derive(Debug, Clone)]
enum SOp {
    Process(f32),
    InGain(f64),
    OutGain(f64),
    Add(Bk),
    Extend(Vec<Bk>),
}

#[derive(Debug)]
struct SCase {
    gains: (f64, f64),
    g: Bk,
    ops: Vec<SOp>,
    /// Further samples after that.
    tail: usize,
}

fn gen_simple(s: &mut Src) -> SCase {
    SCase {
        gains: (gain(s), gain(s)),
        g: bk(s),
        tail: 0,
        ops: s.list(1, 40, |s| match s.below(10) {
            0..=5 => SOp::Process(small(s)),
            6 => SOp::InGain(gain(s)),
            7 => SOp::OutGain(gain(s)),
            8 => SOp::Add(bk(s)),
            _ => SOp::Extend(s.list(0, 4, bk)),
        }),
    }
}

/// Up to a few hundred modifiers.
fn gen_simple_long(s: &mut Src) -> SCase {
    let mut ops = Vec::new();
    for _ in 0..s.us(1, 3) {
        let n = s.us(30, 130);
        // states of recording blocks keep every stage's values small
        let bs: Vec<Bk> = (0..n).map(|_| if s.chance(1, 12) { Bk::Delay(s.us(0, 3)) } else { Bk::Rec(s.below(500)) }).collect();
        if s.chance(1, 2) {
            ops.push(SOp::Extend(bs));
        } else {
            ops.extend(bs.into_iter().map(SOp::Add));
        }
        for _ in 0..s.us(2, 6) {
            ops.push(SOp::Process(small(s)));
        }
    }
    SCase { gains: (gain(s), gain(s)), g: bk(s), ops, tail: 0 }
}

/// Some seconds of samples.
fn gen_simple_run(s: &mut Src) -> SCase {
    let mut c = gen_simple(s);
    c.tail = s.us(70_000, 150_000);
    c
}

/// Sample `i` of the plain signal that long runs are given.
fn tail(i: usize) -> f32 {
    ((i * 7919) % 41) as f32 - 20.0
}

fn readback(s: &SimpleSound, i: f64, o: f64) -> Res {
    let near = |a: f64, b: f64| a == b || (a - b).abs() <= 1.3e-7 * b.abs() + 1e-44;
    ensure!(near(s.get_input_gain(), i), "input gain set to {i:?}, read back {:?}", s.get_input_gain());
    ensure!(near(s.get_output_gain(), o), "output gain set to {o:?}, read back {:?}", s.get_output_gain());
    Ok(())
}

fn run_simple(c: &SCase, obs: &mut Obs) -> Res {
    let log: Log = Default::default();
    let (mut gi, mut go) = c.gains;
    let mut sound = SimpleSound::new(gi, go, make(&c.g, 0, &log));
    let mut model = vec![Mb::new(&c.g)];
    let mut n = 0;
    readback(&sound, gi, go)?;
    let more = (0..c.tail).map(|i| SOp::Process(tail(i)));
    for op in c.ops.iter().cloned().chain(more) {
        let op = &op;
        match op {
            SOp::InGain(g) => {
                sound.set_input_gain(*g);
                gi = *g;
            }
            SOp::OutGain(g) => {
                sound.set_output_gain(*g);
                go = *g;
            }
            SOp::Add(b) => {
                sound.add_modifier::<Gain>(make(b, model.len(), &log));
                model.push(Mb::new(b));
            }
            SOp::Extend(bs) => {
                sound.extend_modifiers(bs.iter().enumerate().map(|(i, b)| make(b, model.len() + i, &log)).collect());
                model.extend(bs.iter().map(Mb::new));
            }
            SOp::Process(x) => {
                let y = sound.process(*x);
                let mut v = *x as f64 * gi;
                let mut fed = Vec::new();
                for m in &mut model {
                    fed.push(v);
                    m.pending = v;
                    v = m.step();
                }
                if fed.iter().any(|v| !exact(*v)) {
                    obs.label("left exact arithmetic");
                    break;
                }
                let want = v * go;
                ensure!(
                    y as f64 == want,
                    "sample {n} with {} modifiers: {y:?}, expected {want:?} (input {x:?}, gains {gi:?} and {go:?})",
                    model.len() - 1
                );
                let l: Vec<Event> = log.borrow_mut().drain(..).collect();
                let done: Vec<usize> = l.iter().filter_map(|e| if let Event::Process(i) = e { Some(*i) } else { None }).collect();
                let all: Vec<usize> = (0..model.len()).filter(|i| matches!(model[*i].kind, Bk::Rec(_))).collect();
                ensure!(done == all, "sample {n}: blocks were processed in the order {done:?}, expected {all:?}");
                for i in &all {
                    let given: f64 = l.iter().map(|e| if let Event::Prime(j, x) = e { if i == j { *x as f64 } else { 0.0 } } else { 0.0 }).sum();
                    ensure!(given == fed[*i], "sample {n}: block {i} was given {given:?}, expected {:?}", fed[*i]);
                }
                n += 1;
                obs.compared += 1 + all.len() as u64;
            }
        }
        readback(&sound, gi, go)?;
        // nothing but processing runs a block
        ensure!(log.borrow().is_empty(), "{op:?} used blocks: {:?}", log.borrow());
    }
    obs.label_if(model.len() > 2, "several modifiers");
    obs.nontrivial = n >= 2 && model.len() >= 2;
    Ok(())
}

/// BAE's own pieces and arbitrary gains.
#[derive(Debug)]
struct RealSimple {
    gains: (f64, f64),
    g: Spec,
    parts: Vec<RPart>,
}

#[derive(Debug)]
enum RPart {
    In(f64),
    Out(f64),
    Mods(Vec<Spec>, bool),
    Reg(Option<usize>),
    Run(Signal),
}

fn smooth_mod(s: &mut Src) -> Spec {
    // linear and not ill-conditioned, so that rounding stays small
    match s.below(6) {
        0 => Spec::Gain(s.uni(-2.0, 2.0) as f32),
        1 => Spec::Delay(nanos(s, 30)),
        2 => Spec::Echo(nanos(s, 30).max(21_000), s.uni(-0.9, 0.9)),
        3 => Spec::LowPass(s.logu(500.0, 24_000.0), s.unit() * 0.8),
        4 => Spec::HighPass(s.logu(500.0, 24_000.0), s.unit() * 0.8),
        _ => Spec::Generic(taps(s, 3, 8), stable_poles(s)),
    }
}

fn any_gain(s: &mut Src) -> f64 {
    match s.below(4) {
        0 => gain(s),
        1 => s.logu(1e-4, 1e3),
        2 => -s.logu(1e-4, 1e3),
        _ => s.uni(-1.0, 1.0),
    }
}

fn id(s: &mut Src) -> usize {
    match s.below(4) {
        0 => s.us(0, 3),
        1 => s.us(0, 300),
        2 => (1u64 << s.below(64)).wrapping_add(s.below(3)).wrapping_sub(1) as usize,
        _ => s.u64() as usize,
    }
}

/// A signal, sometimes with samples of any size.
fn loud(s: &mut Src, max: usize) -> Signal {
    let mut g = signal(s, max);
    if s.chance(1, 6) {
        g.push(Seg::Raw(s.list(1, 6, wide)));
    }
    g
}

fn gen_real_simple(s: &mut Src) -> RealSimple {
    let mut parts = s.list(1, 10, |s| match s.below(6) {
        0 => RPart::In(any_gain(s)),
        1 => RPart::Out(any_gain(s)),
        2 => RPart::Mods(s.list(0, 3, smooth_mod), s.chance(1, 2)),
        3 => RPart::Reg(if s.chance(1, 3) { None } else { Some(id(s)) }),
        _ => RPart::Run(loud(s, 40)),
    });
    parts.push(RPart::Run(loud(s, 40)));
    let g = if s.chance(1, 2) { smooth_mod(s) } else { gen_spec(s, 40) };
    RealSimple { gains: (any_gain(s), any_gain(s)), g, parts }
}

/// Minutes of samples, or thousands of changes of the gains.
fn gen_simple_minutes(s: &mut Src) -> RealSimple {
    let mut c = gen_real_simple(s);
    c.parts.retain(|p| !matches!(p, RPart::Run(_)));
    let seed = s.below(1 << 16);
    if s.chance(1, 2) {
        c.parts.push(RPart::Run(vec![Seg::Noise(seed, 1.0, s.us(3_000_000, 6_000_000))]));
    } else {
        let mut r = Rng::new(seed);
        for k in 0..s.us(2_000, 20_000) {
            let g = r.unit() * 4.0 - 2.0;
            c.parts.push(if r.next() >> 40 & 1 == 0 { RPart::In(g) } else { RPart::Out(g) });
            c.parts.push(RPart::Run(vec![Seg::Noise(k as u64, 1.0, (r.next() >> 40) as usize % 3)]));
        }
        c.parts.push(RPart::Run(vec![Seg::Noise(seed, 1.0, 100)]));
    }
    c
}

fn std_block(sp: &Spec) -> BlockSP {
    if sp.is_generator() {
        Arc::new(StandardBlock::from_generator(sp.build()))
    } else {
        Arc::new(StandardBlock::from_modifier(sp.build()))
    }
}

fn run_real_simple(c: &RealSimple, obs: &mut Obs) -> Res {
    let (mut gi, mut go) = c.gains;
    let mut sound = SimpleSound::new(gi, go, std_block(&c.g));
    let mut chain = vec![c.g.build()];
    let mut n = 0;
    let mut scale = 0.0f64;
    for p in &c.parts {
        match p {
            RPart::In(g) => {
                sound.set_input_gain(*g);
                gi = *g;
            }
            RPart::Out(g) => {
                sound.set_output_gain(*g);
                go = *g;
            }
            RPart::Mods(ms, one) => {
                if *one {
                    for m in ms {
                        sound.add_modifier::<()>(std_block(m));
                    }
                } else {
                    sound.extend_modifiers(ms.iter().map(std_block).collect());
                }
                chain.extend(ms.iter().map(Spec::build));
            }
            RPart::Reg(id) => {
                match id {
                    Some(k) => sound.register(*k),
                    None => sound.unregister(),
                }
                ensure!(sound.get_id() == *id, "registered as {id:?}, the id is {:?}", sound.get_id());
            }
            RPart::Run(sig) => {
                for x in render(sig) {
                    let y = sound.process(x) as f64;
                    let mut v = (x as f64 * gi) as f32;
                    let mut big = 0.0f64;
                    for m in &mut chain {
                        big = big.max(v.abs() as f64);
                        v = m.step(v);
                    }
                    big = big.max(v.abs() as f64);
                    scale = scale.max(big);
                    let want = v as f64 * go;
                    ensure!(
                        (y - want).abs() <= 2e-4 * scale * go.abs() + 1e-37,
                        "sample {n}: {y:?}, its pieces in series with the gains give {want:?}"
                    );
                    n += 1;
                    obs.compared += 1;
                    obs.nontrivial |= want != 0.0 && chain.len() > 1;
                }
            }
        }
        readback(&sound, gi, go)?;
    }
    Ok(())
}

// --------------------------------------------------- C29, C30: complex sounds

#[derive(Debug, Clone, PartialEq)]
enum GOp {
    Block(Bk),
    /// Node numbers: 0 the input gain, 1 the output gain, then blocks as added.
    Connect(usize, usize),
    Disconnect(usize, usize),
    Process(f32),
}

#[derive(Debug, Clone)]
struct GCase {
    gains: (f64, f64),
    ops: Vec<GOp>,
    /// Further samples after that.
    tail: usize,
}

fn gen_graph(s: &mut Src) -> GCase {
    let mut n = 2usize;
    let mut ops: Vec<GOp> = Vec::new();
    let most = s.pick(&[2usize, 4, 8, 20]);
    // mostly forwards, mostly between blocks, or anything
    let style = s.below(4);
    let mut rank: Vec<u64> = vec![0, 1 << 32];
    let len = s.us(4, 60);
    let mut known: Vec<(usize, usize)> = Vec::new();
    for _ in 0..len {
        let op = match s.below(12) {
            0..=2 if n < most + 2 => {
                n += 1;
                rank.push(s.below(1 << 20) + 1);
                GOp::Block(bk(s))
            }
            3..=7 => {
                let (mut a, mut b) = (s.us(0, n - 1), s.us(0, n - 1));
                if style < 2 && rank[a] > rank[b] {
                    std::mem::swap(&mut a, &mut b);
                }
                if style == 0 && a == b {
                    // from the input or to the output instead of a self-loop
                    if s.chance(1, 2) {
                        a = 0;
                    } else {
                        b = 1;
                    }
                }
                known.push((a, b));
                GOp::Connect(a, b)
            }
            8 => {
                let (a, b) = if !known.is_empty() && s.chance(3, 4) { s.pick(&known) } else { (s.us(0, n - 1), s.us(0, n - 1)) };
                GOp::Disconnect(a, b)
            }
            _ => GOp::Process(small(s)),
        };
        ops.push(op);
    }
    for _ in 0..s.us(1, 6) {
        ops.push(GOp::Process(small(s)));
    }
    GCase { gains: (gain(s), gain(s)), ops, tail: 0 }
}

/// Many blocks.
fn gen_large(s: &mut Src) -> GCase {
    let n = s.us(40, 300);
    large(s, n)
}

fn gen_thousands(s: &mut Src) -> GCase {
    let n = s.us(1_000, 2_500);
    large(s, n)
}

fn large(s: &mut Src, n: usize) -> GCase {
    let mut ops: Vec<GOp> = Vec::new();
    let mut r = Rng::new(s.below(1 << 30));
    let mut pick = |n: usize| (r.next() % n as u64) as usize;
    let shape = s.below(4);
    let late = s.chance(1, 3);
    let kinds: Vec<Bk> = (0..8).map(|_| bk(s)).filter(|k| !matches!(k, Bk::Gain(g) if g.abs() > 1)).collect();
    let kind = |i: usize| if i % 5 < 2 && !kinds.is_empty() { kinds[i % kinds.len()].clone() } else { Bk::Rec(i as u64 % 500) };
    for i in 0..n {
        ops.push(GOp::Block(kind(i)));
        if late && i % 16 == 3 {
            ops.push(GOp::Connect(2 + pick(i + 1), 2 + pick(i + 1)));
        }
    }
    // some hidden order of the blocks
    let mut rank: Vec<usize> = (2..n + 2).collect();
    for i in (1..n).rev() {
        rank.swap(i, pick(i + 1));
    }
    match shape {
        // one chain through all of them
        0 => {
            let mut links: Vec<(usize, usize)> = rank.windows(2).map(|w| (w[0], w[1])).collect();
            links.push((0, rank[0]));
            links.push((rank[n - 1], 1));
            for i in (1..links.len()).rev() {
                links.swap(i, pick(i + 1));
            }
            ops.extend(links.into_iter().map(|(a, b)| GOp::Connect(a, b)));
        }
        // all side by side
        1 => {
            for b in &rank {
                ops.push(GOp::Connect(0, *b));
                ops.push(GOp::Connect(*b, 1));
            }
        }
        // forwards only, or any
        _ => {
            for _ in 0..s.us(n, 3 * n) {
                let (a, b) = (pick(n), pick(n));
                let (a, b) = if shape == 2 { (a.min(b), a.max(b)) } else { (a, b) };
                if a != b || shape == 3 {
                    ops.push(GOp::Connect(rank[a], rank[b]));
                }
                if pick(20) == 0 {
                    ops.push(GOp::Disconnect(rank[a], rank[b]));
                }
            }
            for _ in 0..n / 4 {
                ops.push(GOp::Connect(0, rank[pick(n)]));
                ops.push(GOp::Connect(rank[pick(n)], 1));
            }
        }
    }
    for k in 0..s.us(3, 12) {
        ops.push(GOp::Process(small(s)));
        if k == 4 {
            ops.push(GOp::Disconnect(rank[pick(n)], rank[pick(n)]));
        }
    }
    GCase { gains: (gain(s), gain(s)), ops, tail: 0 }
}

/// Some seconds of samples.
fn gen_graph_run(s: &mut Src) -> GCase {
    let mut c = gen_graph(s);
    c.tail = s.us(70_000, 150_000);
    for op in &mut c.ops {
        // amplifiers in cycles leave exact arithmetic at once
        if let GOp::Block(b) = op {
            if matches!(b, Bk::Gain(g) if g.abs() > 1) {
                *b = Bk::Rec(3);
            }
        }
    }
    if s.chance(1, 2) {
        c.ops.retain(|o| !matches!(o, GOp::Connect(_, 0) | GOp::Connect(1, _)));
    }
    c
}

/// Thousands of connections made and removed.
fn gen_rewired(s: &mut Src) -> GCase {
    let n = s.us(1, 8);
    let mut ops: Vec<GOp> = (0..n).map(|i| GOp::Block(Bk::Rec(i as u64))).collect();
    let mut r = Rng::new(s.below(1 << 30));
    let forwards = s.chance(1, 2);
    for _ in 0..s.us(2_000, 8_000) {
        let (a, b) = ((r.next() >> 33) as usize % (n + 2), (r.next() >> 33) as usize % (n + 2));
        let place = |k: usize| if k == 1 { n + 2 } else { k };
        let (a, b) = if forwards && place(a) > place(b) { (b, a) } else { (a, b) };
        ops.push(match r.next() >> 40 & 7 {
            0 => GOp::Process((r.next() >> 60) as f32 - 8.0),
            1..=3 => GOp::Connect(a, b),
            _ => GOp::Disconnect(a, b),
        });
    }
    ops.push(GOp::Process(1.0));
    ops.push(GOp::Process(1.0));
    GCase { gains: (gain(s), gain(s)), ops, tail: 0 }
}

/// Every graph on two blocks (and the input and output nodes), one by one.
fn all_small_graphs() -> Vec<GCase> {
    let mut v = Vec::new();
    // 4 nodes, 16 possible connections
    for mask in 0u32..1 << 16 {
        // sample evenly, all graphs without self-loops on the gain nodes
        if mask & 1 != 0 || mask & (1 << 5) != 0 {
            continue;
        }
        let mut ops = vec![GOp::Block(Bk::Rec(1)), GOp::Block(Bk::Rec(2))];
        for e in 0..16 {
            // connect in an order that depends on the graph
            let e = (e * 7 + mask as usize) % 16;
            if mask & (1 << e) != 0 {
                ops.push(GOp::Connect(e / 4, e % 4));
            }
        }
        for k in 0..4 {
            ops.push(GOp::Process([3.0, -1.0, 0.0, 2.0][k]));
        }
        v.push(GCase { gains: (1.0, 1.0), ops, tail: 0 });
    }
    v
}

struct Built {
    sound: ComplexSound,
    nodes: Vec<GraphNode>,
    model: Vec<Mb>,
    edges: Vec<(usize, usize)>,
    log: Log,
}

impl Built {
    fn new(gains: (f64, f64)) -> Built {
        let sound = ComplexSound::new(gains.0, gains.1);
        let nodes = vec![sound.get_input_gain(), sound.get_output_gain()];
        Built { sound, nodes, model: vec![Mb::gain(gains.0), Mb::gain(gains.1)], edges: Vec::new(), log: Default::default() }
    }
    /// All but processing.
    fn build(&mut self, op: &GOp) {
        match op {
            GOp::Block(b) => {
                let n = self.sound.add_block(make(b, self.nodes.len(), &self.log));
                self.nodes.push(n);
                self.model.push(Mb::new(b));
            }
            GOp::Connect(a, b) => {
                self.sound.add_connection(self.nodes[*a], self.nodes[*b]);
                if !self.edges.contains(&(*a, *b)) {
                    self.edges.push((*a, *b));
                }
            }
            GOp::Disconnect(a, b) => {
                self.sound.remove_connection(self.nodes[*a], self.nodes[*b]);
                self.edges.retain(|e| *e != (*a, *b));
            }
            GOp::Process(_) => {}
        }
    }
    /// The reported order in node numbers.
    fn order(&self) -> Result<Vec<usize>, String> {
        let at: HashMap<GraphNode, usize> = self.nodes.iter().enumerate().map(|(i, n)| (*n, i)).collect();
        self.sound
            .get_nodes()
            .iter()
            .map(|g| at.get(g).copied().ok_or_else(|| format!("the order holds {g:?}, which is no block of the sound")))
            .collect()
    }
    /// One sample through the model; None once values are no longer exact.
    fn model(&mut self, x: f64, order: &[usize]) -> Option<f64> {
        self.model[0].pending += x;
        let mut out = 0.0;
        let mut fine = true;
        let mut to: Vec<Vec<usize>> = vec![Vec::new(); self.model.len()];
        for &(f, t) in &self.edges {
            to[f].push(t);
        }
        for &b in order {
            fine &= exact(self.model[b].pending);
            let y = self.model[b].step();
            fine &= exact(y);
            if b == 1 {
                out = y;
            }
            for &t in &to[b] {
                self.model[t].pending += y;
            }
        }
        if fine {
            Some(out)
        } else {
            None
        }
    }
}

fn names(v: &[usize]) -> String {
    v.iter()
        .map(|i| match i {
            0 => "in".to_string(),
            1 => "out".to_string(),
            i => format!("b{}", i - 2),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn run_graph(c: &GCase, obs: &mut Obs) -> Res {
    let mut b = Built::new(c.gains);
    let mut n = 0;
    let mut changed = false;
    let more = (0..c.tail).map(|i| GOp::Process(tail(i)));
    for op in c.ops.iter().cloned().chain(more) {
        let x = match &op {
            GOp::Process(x) => *x,
            o => {
                b.build(o);
                changed |= n > 0;
                ensure!(b.log.borrow().is_empty(), "{o:?} used blocks: {:?}", b.log.borrow());
                continue;
            }
        };
        let order = b.order()?;
        let pending: Vec<f64> = b.model.iter().map(|m| m.pending).collect();
        let want = b.model(x as f64, &order);
        let y = b.sound.process(x);
        let log: Vec<Event> = b.log.borrow_mut().drain(..).collect();
        let want = match want {
            Some(w) => w,
            None => {
                obs.label("left exact arithmetic");
                break;
            }
        };
        let done: Vec<usize> = log.iter().filter_map(|e| if let Event::Process(i) = e { Some(*i) } else { None }).collect();
        let expect: Vec<usize> = order.iter().copied().filter(|i| *i > 1 && matches!(b.model[*i].kind, Bk::Rec(_))).collect();
        ensure!(
            done == expect,
            "sample {n}: blocks processed: {}; reported order: {}",
            names(&done),
            names(&expect)
        );
        let mut times = vec![0; b.model.len()];
        for o in &order {
            times[*o] += 1;
        }
        for i in 2..b.model.len() {
            let k = times[i];
            ensure!(k == 1, "sample {n}: block {} is processed {k} times, order: {}", i - 2, names(&order));
        }
        ensure!(
            y as f64 == want,
            "sample {n}: {y:?}, expected {want:?}; input {x:?}, order: {}; connections {:?}; pending before {:?}",
            names(&order),
            b.edges,
            pending
        );
        // inputs left for the next sample show in the next outputs
        n += 1;
        obs.compared += 1 + expect.len() as u64;
    }
    let e = &b.edges;
    obs.label_if(changed, "changed between samples");
    obs.label_if(e.iter().any(|(a, b)| a == b), "self-loop");
    obs.label_if(e.iter().any(|(f, t)| e.contains(&(*t, *f)) && f != t), "two-block cycle");
    obs.label_if(e.iter().any(|(f, t)| *t == 0 || *f == 1), "into the input or out of the output");
    obs.nontrivial = n >= 2 && e.len() >= 2;
    Ok(())
}

fn acyclic(n: usize, edges: &[(usize, usize)]) -> bool {
    let mut indeg = vec![0; n];
    for (_, t) in edges {
        indeg[*t] += 1;
    }
    let mut to: Vec<Vec<usize>> = vec![Vec::new(); n];
    for &(f, t) in edges {
        to[f].push(t);
    }
    let mut q: Vec<usize> = (0..n).filter(|i| indeg[*i] == 0).collect();
    let mut seen = 0;
    while let Some(i) = q.pop() {
        seen += 1;
        for &t in &to[i] {
            indeg[t] -= 1;
            if indeg[t] == 0 {
                q.push(t);
            }
        }
    }
    seen == n
}

/// Connections that decide the order.
fn deciding(edges: &[(usize, usize)]) -> Vec<(usize, usize)> {
    edges.iter().copied().filter(|(f, t)| *t != 0 && *f != 1).collect()
}

fn check_order(b: &Built) -> Result<bool, String> {
    let order = b.order()?;
    let n = b.nodes.len();
    let mut sorted = order.clone();
    sorted.sort_unstable();
    ensure!(sorted == (0..n).collect::<Vec<_>>(), "the order is not each of {n} blocks once: {}", names(&order));
    ensure!(order[0] == 0, "the input node is not first: {}", names(&order));
    ensure!(order[n - 1] == 1, "the output node is not last: {}", names(&order));
    let e = deciding(&b.edges);
    if !acyclic(n, &e) {
        return Ok(false);
    }
    let mut place = vec![0; n];
    for (k, o) in order.iter().enumerate() {
        place[*o] = k;
    }
    let at = |i: usize| place[i];
    for (f, t) in &e {
        ensure!(
            at(*f) < at(*t),
            "{} feeds {} but comes after it in {}; connections {:?}",
            names(&[*f]),
            names(&[*t]),
            names(&order),
            b.edges
        );
    }
    Ok(true)
}

/// Looked at before processing only.
fn run_order_late(c: &GCase, obs: &mut Obs) -> Res {
    let mut b = Built::new(c.gains);
    for op in &c.ops {
        if let GOp::Process(_) = op {
            check_order(&b)?;
            obs.compared += 1;
        } else {
            b.build(op);
        }
    }
    obs.nontrivial = true;
    Ok(())
}

fn run_order(c: &GCase, obs: &mut Obs) -> Res {
    let mut b = Built::new(c.gains);
    check_order(&b)?;
    let (mut free, mut cyclic) = (0, 0);
    for op in &c.ops {
        if let GOp::Process(x) = op {
            b.sound.process(*x);
        } else {
            b.build(op);
        }
        if check_order(&b)? {
            free += 1;
        } else {
            cyclic += 1;
        }
        obs.compared += 1;
    }
    obs.label_if(cyclic > 0, "with a cycle");
    obs.label_if(cyclic > 0 && free > 0, "both with and without cycles");
    obs.nontrivial = b.edges.len() >= 2 && b.nodes.len() >= 3;
    Ok(())
}

/// The same acyclic graph connected in two orders, one of them with detours.
#[derive(Debug)]
struct TwoWays {
    gains: (f64, f64),
    blocks: Vec<Bk>,
    edges: Vec<(usize, usize)>,
    /// Keys that sort the edges for the second build.
    keys: Vec<u64>,
    detours: Vec<(usize, usize)>,
    late: usize,
    input: Vec<f32>,
}

fn gen_two(s: &mut Src) -> TwoWays {
    let most = s.pick(&[3usize, 6, 14]);
    let blocks = s.list(1, most, bk);
    let n = blocks.len() + 2;
    let rank: Vec<u64> = (0..n)
        .map(|i| match i {
            0 => 0,
            1 => u64::MAX,
            _ => 1 + s.below(1 << 30),
        })
        .collect();
    let mut edges: Vec<(usize, usize)> = Vec::new();
    for _ in 0..s.us(1, 3 * n) {
        let (a, b) = (s.us(0, n - 1), s.us(0, n - 1));
        let (a, b) = if rank[a] <= rank[b] { (a, b) } else { (b, a) };
        if a != b && rank[a] != rank[b] && !edges.contains(&(a, b)) {
            edges.push((a, b));
        }
    }
    // feedback through the gain nodes does not decide the order
    if s.chance(1, 5) {
        edges.push((s.us(2, n - 1), 0));
    }
    if s.chance(1, 5) {
        edges.push((1, s.us(2, n - 1)));
    }
    let keys = edges.iter().map(|_| s.below(1 << 20)).collect();
    TwoWays {
        gains: (gain(s), gain(s)),
        late: s.us(0, blocks.len()),
        detours: s.list(0, 6, |s| (s.us(0, n - 1), s.us(0, n - 1))),
        input: s.list(1, 12, small),
        blocks,
        edges,
        keys,
    }
}

fn run_two(c: &TwoWays, obs: &mut Obs) -> Res {
    let mut a = Built::new(c.gains);
    for b in &c.blocks {
        a.build(&GOp::Block(b.clone()));
    }
    for (f, t) in &c.edges {
        a.build(&GOp::Connect(*f, *t));
    }
    let mut b = Built::new(c.gains);
    for k in &c.blocks[..c.late] {
        b.build(&GOp::Block(k.clone()));
    }
    let mut second: Vec<(u64, (usize, usize))> = c.keys.iter().copied().zip(c.edges.iter().copied()).collect();
    second.sort();
    // connections among the blocks there are so far come first
    let there = c.late + 2;
    let (early, rest): (Vec<_>, Vec<_>) = second.into_iter().map(|e| e.1).partition(|(f, t)| *f < there && *t < there);
    let mut detours = c.detours.iter();
    for (f, t) in early {
        if let Some((x, y)) = detours.next() {
            if *x < there && *y < there && !c.edges.contains(&(*x, *y)) {
                b.build(&GOp::Connect(*x, *y));
                b.build(&GOp::Disconnect(*x, *y));
            }
        }
        b.build(&GOp::Connect(f, t));
    }
    for k in &c.blocks[c.late..] {
        b.build(&GOp::Block(k.clone()));
    }
    for (f, t) in rest {
        if let Some((x, y)) = detours.next() {
            if !c.edges.contains(&(*x, *y)) {
                b.build(&GOp::Connect(*x, *y));
                b.build(&GOp::Disconnect(*x, *y));
            }
        }
        b.build(&GOp::Connect(f, t));
    }
    check_order(&a)?;
    check_order(&b)?;
    let free = acyclic(a.nodes.len(), &deciding(&c.edges));
    ensure!(free, "harness: the graph has a cycle");
    let order = a.order()?;
    for (n, x) in c.input.iter().enumerate() {
        let want = a.model(*x as f64, &order);
        if want.is_none() {
            obs.label("left exact arithmetic");
            break;
        }
        let (p, q) = (a.sound.process(*x), b.sound.process(*x));
        ensure!(p == q, "sample {n}: {p:?} connected one way, {q:?} the other; edges {:?}", c.edges);
        ensure!(p as f64 == want.unwrap(), "sample {n}: {p:?}, without any delay the graph gives {want:?}");
        obs.compared += 2;
        obs.nontrivial |= p != 0.0 && c.edges.len() >= 3;
    }
    Ok(())
}

/// A graph of BAE's own pieces without feedback, and arbitrary gains.
#[derive(Debug)]
struct RealGraph {
    gains: (f64, f64),
    specs: Vec<Spec>,
    /// From a lower to a higher number: 0 the input gain, the blocks, the
    /// output gain; connected in this order.
    edges: Vec<(usize, usize)>,
    sig: Signal,
}

fn gen_real_graph(s: &mut Src) -> RealGraph {
    let specs = s.list(1, 6, |s| if s.chance(1, 5) { gen_spec(s, 40) } else { smooth_mod(s) });
    let n = specs.len() + 1;
    let mut edges: Vec<(usize, usize)> = Vec::new();
    for _ in 0..s.us(1, 3 * n) {
        let (a, b) = (s.us(0, n), s.us(0, n));
        let e = (a.min(b), a.max(b));
        if e.0 != e.1 && !edges.contains(&e) {
            edges.push(e);
        }
    }
    if s.chance(1, 2) {
        for i in 0..n {
            if !edges.contains(&(i, i + 1)) {
                edges.insert(s.us(0, edges.len()), (i, i + 1));
            }
        }
    }
    RealGraph { gains: (any_gain(s), any_gain(s)), specs, edges, sig: loud(s, 60) }
}

fn gen_graph_minutes(s: &mut Src) -> RealGraph {
    RealGraph { sig: vec![Seg::Noise(s.below(1 << 16), 1.0, s.us(2_000_000, 4_000_000))], ..gen_real_graph(s) }
}

fn run_real_graph(c: &RealGraph, obs: &mut Obs) -> Res {
    let mut sound = ComplexSound::new(c.gains.0, c.gains.1);
    let mut nodes = vec![sound.get_input_gain()];
    nodes.extend(c.specs.iter().map(|p| sound.add_block(std_block(p))));
    nodes.push(sound.get_output_gain());
    for &(a, b) in &c.edges {
        sound.add_connection(nodes[a], nodes[b]);
    }
    let last = nodes.len() - 1;
    let mut bare: Vec<_> = c.specs.iter().map(Spec::build).collect();
    let mut scale = 0.0f64;
    for (n, x) in render(&c.sig).into_iter().enumerate() {
        let y = sound.process(x) as f64;
        let mut v = vec![0.0f64; nodes.len()];
        v[0] = x as f64;
        for k in 0..last {
            scale = scale.max(v[k].abs());
            v[k] = if k == 0 { v[0] * c.gains.0 } else { bare[k - 1].step(v[k] as f32) as f64 };
            scale = scale.max(v[k].abs());
            for &(a, b) in &c.edges {
                if a == k {
                    v[b] += v[k];
                }
            }
        }
        scale = scale.max(v[last].abs());
        let want = v[last] * c.gains.1;
        ensure!(
            (y - want).abs() <= 2e-4 * scale * c.gains.1.abs() + 1e-37,
            "sample {n}: {y:?}, its pieces connected with the gains give {want:?}; edges {:?}",
            c.edges
        );
        obs.compared += 1;
        obs.nontrivial |= want != 0.0 && c.edges.len() > 1;
    }
    Ok(())
}

// ------------------------------------------------- C33: pause, mute, register

#[derive(Debug, Clone)]
enum POp {
    Process(f32),
    Pause,
    Mute,
    Register(usize),
    Unregister,
}

#[derive(Debug)]
struct PCase {
    /// A simple sound's blocks, or the graph of a complex one.
    simple: Option<Vec<Bk>>,
    graph: GCase,
    ops: Vec<POp>,
    /// How often the whole history is gone through.
    reps: usize,
}

fn gen_pause(s: &mut Src) -> PCase {
    let simple = if s.chance(1, 2) { Some(s.list(1, 5, bk)) } else { None };
    let mut graph = gen_graph(s);
    graph.ops.retain(|o| !matches!(o, GOp::Process(_)));
    PCase {
        simple,
        graph,
        reps: 1,
        ops: s.list(2, 60, |s| match s.below(12) {
            0..=6 => POp::Process(small(s)),
            7..=8 => POp::Pause,
            9 => POp::Mute,
            10 => POp::Register(id(s)),
            _ => POp::Unregister,
        }),
    }
}

/// Some seconds of samples, or long pauses, or many changes.
fn gen_pause_long(s: &mut Src) -> PCase {
    let mut c = gen_pause(s);
    c.graph.ops.retain(|o| !matches!(o, GOp::Block(Bk::Gain(g)) if g.abs() > 1));
    let blocks = c.graph.ops.iter().filter(|o| matches!(o, GOp::Block(_))).count();
    c.graph.ops.retain(|o| !matches!(o, GOp::Connect(a, b) | GOp::Disconnect(a, b) if *a >= blocks + 2 || *b >= blocks + 2));
    c.graph.ops.sort_by_key(|o| !matches!(o, GOp::Block(_)));
    c.graph.ops.retain(|o| !matches!(o, GOp::Connect(_, 0) | GOp::Connect(1, _)));
    match s.below(3) {
        0 => c.reps = s.us(100_000, 200_000) / c.ops.len(),
        // few changes
        1 => {
            let n = s.us(66_000, 100_000);
            let m = s.us(0, 100_000);
            let toggle = if s.chance(1, 2) { POp::Pause } else { POp::Mute };
            let x = small(s);
            c.ops.push(toggle.clone());
            c.ops.extend(std::iter::repeat(POp::Process(x)).take(n));
            c.ops.push(toggle);
            c.ops.extend(std::iter::repeat(POp::Process(x)).take(m));
        }
        // many changes
        _ => {
            c.ops.retain(|o| !matches!(o, POp::Process(_)) || s.chance(1, 4));
            c.ops.push(POp::Process(1.0));
            c.reps = s.us(70_000, 140_000) / c.ops.len();
        }
    }
    c
}

fn run_pause(c: &PCase, obs: &mut Obs) -> Res {
    let mut b = Built::new(c.graph.gains);
    let mut chain: Vec<Mb> = Vec::new();
    let mut simple;
    let sound: &mut dyn Sound;
    let (mut order, log) = (Vec::new(), b.log.clone());
    if let Some(bs) = &c.simple {
        simple = SimpleSound::new(c.graph.gains.0, c.graph.gains.1, make(&bs[0], 0, &log));
        for (i, k) in bs.iter().enumerate().skip(1) {
            simple.add_modifier::<()>(make(k, i, &log));
        }
        chain = bs.iter().map(Mb::new).collect();
        sound = &mut simple;
    } else {
        for op in &c.graph.ops {
            b.build(op);
        }
        order = b.order()?;
        // the sound proper is used through the trait, the rest stays the model
        simple = SimpleSound::new(0.0, 0.0, make(&Bk::Gain(0), 0, &log));
        let _ = &mut simple;
        sound = &mut b.sound;
    }
    let mut paused = false;
    let mut muted = false;
    let mut id = None;
    let mut model: Vec<Mb> = std::mem::take(&mut b.model);
    let edges = b.edges.clone();
    let (mut n, mut while_paused, mut while_muted, mut after) = (0, 0, 0, 0);
    for op in (0..c.reps).flat_map(|_| c.ops.iter()) {
        match op {
            POp::Pause => {
                sound.toggle_pause();
                paused = !paused;
            }
            POp::Mute => {
                sound.toggle_mute();
                muted = !muted;
            }
            POp::Register(k) => {
                sound.register(*k);
                id = Some(*k);
            }
            POp::Unregister => {
                sound.unregister();
                id = None;
            }
            POp::Process(x) => {
                let y = sound.process(*x);
                let l: Vec<Event> = log.borrow_mut().drain(..).collect();
                if paused {
                    ensure!(y == 0.0, "sample {n}: {y:?} while paused");
                    ensure!(l.is_empty(), "sample {n}: blocks used while paused: {l:?}");
                    while_paused += 1;
                } else {
                    let want;
                    let mut fine = true;
                    let recs: Vec<usize>;
                    if c.simple.is_some() {
                        let mut v = *x as f64 * c.graph.gains.0;
                        for m in &mut chain {
                            fine &= exact(v);
                            m.pending = v;
                            v = m.step();
                        }
                        want = v * c.graph.gains.1;
                        recs = (0..chain.len()).filter(|i| matches!(chain[*i].kind, Bk::Rec(_))).collect();
                    } else {
                        model[0].pending += *x as f64;
                        let mut out = 0.0;
                        for &k in &order {
                            fine &= exact(model[k].pending);
                            let v = model[k].step();
                            fine &= exact(v);
                            if k == 1 {
                                out = v;
                            }
                            for &(f, t) in &edges {
                                if f == k {
                                    model[t].pending += v;
                                }
                            }
                        }
                        want = out;
                        recs = order.iter().copied().filter(|i| *i > 1 && matches!(model[*i].kind, Bk::Rec(_))).collect();
                    }
                    if !fine {
                        obs.label("left exact arithmetic");
                        break;
                    }
                    let want = if muted { 0.0 } else { want };
                    ensure!(
                        y as f64 == want,
                        "sample {n} ({}, paused for {while_paused}, muted for {while_muted}): {y:?}, expected {want:?}",
                        if muted { "muted" } else { "heard" }
                    );
                    let done: Vec<usize> = l.iter().filter_map(|e| if let Event::Process(i) = e { Some(*i) } else { None }).collect();
                    ensure!(done == recs, "sample {n}: blocks processed {done:?}, expected {recs:?} (muted: {muted})");
                    while_muted += muted as u32;
                    after += (while_paused > 0 && !muted) as u32;
                }
                n += 1;
                obs.compared += 2;
            }
        }
        ensure!(sound.is_paused() == paused, "after {op:?}: paused is {paused}, reported {}", sound.is_paused());
        ensure!(sound.is_muted() == muted, "after {op:?}: muted is {muted}, reported {}", sound.is_muted());
        ensure!(sound.get_id() == id, "after {op:?}: id is {id:?}, reported {:?}", sound.get_id());
        ensure!(log.borrow().is_empty(), "{op:?} used blocks: {:?}", log.borrow());
        obs.compared += 3;
    }
    obs.label_if(while_paused > 0 && after > 0, "continued after a pause");
    obs.label_if(while_muted > 0, "muted while playing");
    obs.label(if c.simple.is_some() { "simple" } else { "complex" });
    obs.nontrivial = (while_paused > 0 && after > 0) || while_muted > 0;
    Ok(())
}

/// A simple or complex sound of BAE's own pieces, paused and muted, against a
/// twin that is not.
#[derive(Debug)]
struct TwinCase {
    complex: bool,
    specs: Vec<Spec>,
    gains: (f64, f64),
    ops: Vec<POp>,
    sig: Vec<f32>,
}

fn gen_twin(s: &mut Src) -> TwinCase {
    TwinCase {
        complex: s.chance(1, 2),
        specs: s.list(1, 4, |s| spec(s, 60)),
        gains: (any_gain(s), any_gain(s)),
        ops: s.list(2, 40, |s| match s.below(8) {
            0..=4 => POp::Process(sample(s)),
            5..=6 => POp::Pause,
            _ => POp::Mute,
        }),
        sig: s.list(1, 20, sample),
    }
}

fn whole(c: &TwinCase) -> Box<dyn Sound> {
    if c.complex {
        let mut s = ComplexSound::new(c.gains.0, c.gains.1);
        let (i, o) = (s.get_input_gain(), s.get_output_gain());
        let nodes: Vec<GraphNode> = c.specs.iter().map(|p| s.add_block(std_block(p))).collect();
        s.add_connection(i, nodes[0]);
        for w in nodes.windows(2) {
            s.add_connection(w[0], w[1]);
        }
        s.add_connection(nodes[nodes.len() - 1], o);
        s.add_connection(nodes[nodes.len() - 1], nodes[0]);
        Box::new(s)
    } else {
        let mut s = SimpleSound::new(c.gains.0, c.gains.1, std_block(&c.specs[0]));
        s.extend_modifiers(c.specs[1..].iter().map(std_block).collect());
        Box::new(s)
    }
}

fn run_twin(c: &TwinCase, obs: &mut Obs) -> Res {
    let (mut a, mut b) = (whole(c), whole(c));
    let (mut paused, mut muted) = (false, false);
    let mut stopped = 0;
    let eq = |x: f32, y: f32| x == y || (x.is_nan() && y.is_nan());
    let mut all: Vec<POp> = c.ops.clone();
    // heard at the end
    if c.ops.iter().filter(|o| matches!(o, POp::Pause)).count() % 2 == 1 {
        all.push(POp::Pause);
    }
    if c.ops.iter().filter(|o| matches!(o, POp::Mute)).count() % 2 == 1 {
        all.push(POp::Mute);
    }
    all.extend(c.sig.iter().map(|x| POp::Process(*x)));
    for (n, op) in all.iter().enumerate() {
        match op {
            POp::Pause => {
                a.toggle_pause();
                paused = !paused;
            }
            POp::Mute => {
                a.toggle_mute();
                muted = !muted;
            }
            POp::Process(x) => {
                let y = a.process(*x);
                if paused {
                    ensure!(y == 0.0, "op {n}: {y:?} while paused");
                    stopped += 1;
                } else {
                    let z = b.process(*x);
                    let want = if muted { 0.0 } else { z };
                    ensure!(eq(y, want), "op {n}: {y:?}, one never paused or muted gives {want:?} (muted: {muted})");
                    obs.nontrivial |= stopped > 0 && z != 0.0;
                }
                obs.compared += 1;
            }
            _ => {}
        }
    }
    Ok(())
}

// --------------------------------------------------------------------- findings

fn cloned_simple() -> Option<String> {
    let log: Log = Default::default();
    let mut a = SimpleSound::new(1.0, 1.0, make(&Bk::Rec(7), 0, &log));
    let mut m = Mb::new(&Bk::Rec(7));
    m.pending = 1.0;
    let want = m.step() as f32;
    let mut b = a.clone();
    let (x, y) = (catch(|| a.process(1.0)), catch(|| b.process(1.0)));
    match (&x, &y) {
        (Ok(p), Ok(q)) if *p == want && *q == want => None,
        _ => Some(format!("a simple sound and its clone give {x:?} and {y:?}, expected {want:?}")),
    }
}

fn cloned_complex() -> Option<String> {
    let mut a = ComplexSound::new(1.0, 1.0);
    let (i, o) = (a.get_input_gain(), a.get_output_gain());
    a.add_connection(i, o);
    let mut b = a.clone();
    let (x, y) = (catch(|| a.process(1.0)), catch(|| b.process(1.0)));
    match (&x, &y) {
        (Ok(p), Ok(q)) if *p == 1.0 && *q == 1.0 => None,
        _ => Some(format!("a complex sound and its clone give {x:?} and {y:?}, expected 1.0")),
    }
}

pub fn properties() -> Vec<Property> {
    const OWN: &str = "blocks are owned by the sound alone (no other handle to them is kept), as Arc::get_mut requires";
    vec![
        Property {
            id: "C27",
            rule: "A case is a block (each constructor, interactors with state) and a history of inputs, processing and replaced parts over recording pieces with exact integer values, or of BAE's own pieces against the bare ones. Non-trivial: processed at least twice with input given, or an output other than 0.",
            assumptions: &["no other handle to a block's parts is kept"],
            subs: vec![
                Sub::new("recorded", 4_500_000, 10_000_000, gen_block, run_block),
                Sub::new("own_pieces", 900_000, 18_000_000, gen_real_block, run_real_block),
                Sub::new("minutes", 6, 120, gen_block_minutes, run_real_block),
                Sub::new("long", 48, 2_000, gen_block_long, run_block),
                Sub::new("flood", 4_000, 80_000, gen_block_flood, run_block),
                Sub::new("rests", 96, 1_920, super::rests::gen_block, super::rests::run_block),
            ],
            probes: vec![],
        },
        Property {
            id: "C28",
            rule: "A case is a simple sound and a history of samples, gain changes and added modifiers, over recording blocks (up to some 300) with exact integer values or over BAE's own pieces. Non-trivial: at least two samples through at least one modifier (own pieces: an output other than 0).",
            assumptions: &[OWN],
            subs: vec![
                Sub::new("recorded", 3_000_000, 8_000_000, gen_simple, run_simple),
                Sub::new("long", 64, 2_000, gen_simple_run, run_simple),
                Sub::new("many_modifiers", 4_000, 80_000, gen_simple_long, run_simple),
                Sub::new("own_pieces", 600_000, 12_000_000, gen_real_simple, run_real_simple),
                Sub::new("minutes", 12, 240, gen_simple_minutes, run_real_simple),
                Sub::new("rests", 96, 1_920, super::rests::gen_simple, super::rests::run_sound),
            ],
            probes: vec![Probe { key: "cloned-simple-sound", run: cloned_simple }],
        },
        Property {
            id: "C29",
            rule: "A case is a history of added blocks, added and removed connections (any nodes, repeated, cyclic, self-loops) and samples, compared call by call and exactly with a simulation in the reported order; graphs of up to 300 blocks; plus every graph on two blocks; or a graph of BAE's own pieces without feedback, with arbitrary gains, against the bare pieces. Non-trivial: at least two samples and two connections.",
            assumptions: &[OWN, "connections are between nodes of the sound"],
            subs: vec![Sub::new("routing", 900_000, 18_000_000, gen_graph, run_graph).with_cases(all_small_graphs(), run_graph), Sub::new("large", 1_600, 32_000, gen_large, run_graph), Sub::new("thousands", 8, 160, gen_thousands, run_graph), Sub::new("rewired", 120, 2_400, gen_rewired, run_graph), Sub::new("long", 64, 2_000, gen_graph_run, run_graph), Sub::new("own_pieces", 500_000, 10_000_000, gen_real_graph, run_real_graph), Sub::new("minutes", 6, 120, gen_graph_minutes, run_real_graph), Sub::new("rests", 96, 1_920, super::rests::gen_complex, super::rests::run_sound)],
            probes: vec![Probe { key: "cloned-complex-sound", run: cloned_complex }],
        },
        Property {
            id: "C30",
            rule: "A case is a history as for C29 with the order's invariants checked after every call, or one acyclic graph built in two orders, one with detours, whose outputs must agree exactly with each other and with the delay-free result; plus every graph on two blocks. Non-trivial: at least two connections and a block (two builds: three connections and an output other than 0).",
            assumptions: &[OWN],
            subs: vec![
                Sub::new("order", 600_000, 12_000_000, gen_graph, run_order).with_cases(all_small_graphs(), run_order),
                Sub::new("large", 800, 16_000, gen_large, run_order),
                Sub::new("thousands", 16, 320, gen_thousands, run_order_late),
                Sub::new("rewired", 120, 2_400, gen_rewired, run_order),
                Sub::new("two_builds", 640_000, 12_800_000, gen_two, run_two),
            ],
            probes: vec![],
        },
        Property {
            id: "C33",
            rule: "A case is a simple or complex sound of recording blocks and a history of pause, mute, register, unregister and sample calls, compared call by call with a model; or a sound of BAE's own pieces against a twin that is never paused or muted. Non-trivial: it is heard after a pause, or muted while playing.",
            assumptions: &[OWN],
            subs: vec![
                Sub::new("recorded", 1_800_000, 36_000_000, gen_pause, run_pause),
                Sub::new("own_pieces", 900_000, 18_000_000, gen_twin, run_twin),
                Sub::new("long", 64, 2_000, gen_pause_long, run_pause),
                Sub::new("rests", 96, 1_920, super::rests::gen_paused, super::rests::run_sound),
            ],
            probes: vec![],
        },
    ]
}
