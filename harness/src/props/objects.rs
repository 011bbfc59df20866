//! C06: clones; C36: isolation.

use crate::alloc::live;
use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use crate::kinds::*;
use bae_rs::sounds::{Block, BlockSP, ComplexSound, SimpleSound, Sound, StandardBlock};
use std::sync::Arc;

// ----------------------------------------------------------------------- clones

#[derive(Debug, Clone)]
enum COp {
    Run(usize, Signal),
    Set(usize, Setting),
    /// A new object cloned from object i.
    Clone(usize),
    Drop(usize),
}

#[derive(Debug)]
struct CCase {
    spec: Spec,
    ops: Vec<COp>,
}

fn gen_clone_n(s: &mut Src, max: usize, ops: usize) -> CCase {
    let sp = spec(s, max);
    let mut specs = vec![Some(sp.clone())];
    let mut v = Vec::new();
    // used for a while, cloned, then anything
    v.push(COp::Run(0, signal(s, max)));
    if let (true, Some(t)) = (s.chance(1, 2), setting(s, &sp)) {
        specs[0].as_mut().unwrap().apply(&t);
        v.push(COp::Set(0, t));
        v.push(COp::Run(0, signal(s, max)));
    }
    specs.push(specs[0].clone());
    v.push(COp::Clone(0));
    let rest = s.list(2, ops, |s| {
        let alive: Vec<usize> = (0..specs.len()).filter(|i| specs[*i].is_some()).collect();
        let i = s.pick(&alive);
        match s.below(8) {
            0 if specs.len() < 5 => {
                let c = specs[i].clone();
                specs.push(c);
                COp::Clone(i)
            }
            1..=2 => match setting(s, specs[i].as_ref().unwrap()) {
                Some(t) => {
                    specs[i].as_mut().unwrap().apply(&t);
                    COp::Set(i, t)
                }
                None => COp::Run(i, signal(s, max)),
            },
            3 if alive.len() > 1 && s.chance(1, 3) => {
                specs[i] = None;
                COp::Drop(i)
            }
            _ => COp::Run(i, signal(s, max)),
        }
    });
    v.extend(rest);
    for (i, sp) in specs.iter().enumerate() {
        if sp.is_some() {
            v.push(COp::Run(i, signal(s, max)));
        }
    }
    CCase { spec: sp, ops: v }
}

fn gen_clone(s: &mut Src) -> CCase {
    gen_clone_n(s, 120, 10)
}

fn gen_clone_minutes(s: &mut Src) -> CCase {
    gen_clone_n(s, 1_000_000, 4)
}

fn gen_clone_long(s: &mut Src) -> CCase {
    gen_clone_n(s, 8_000, 16)
}

struct Pair {
    obj: Obj,
    /// What it must sound like: the original's twin that was never cloned, or
    /// a newly made object with the settings the clone was taken with.
    like: Obj,
    exact: bool,
    spec: Spec,
    phase: Phase,
    /// Bytes it holds, and may hold.
    bytes: i64,
    most: i64,
    scale: f32,
}

fn frequency(sp: &Spec) -> Option<f64> {
    match sp {
        Spec::Sine(f) | Spec::Saw(f) | Spec::Square(f) | Spec::Triangle(f) => Some(*f),
        _ => None,
    }
}

/// Equal up to rounding; where the waveform jumps, either side.
fn alike(p: &Pair, x: f32, a: f32, b: f32) -> bool {
    if a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || a == b {
        return true;
    }
    if p.exact {
        return false;
    }
    let d = (a as f64 - b as f64).abs();
    let scale = a.abs().max(b.abs()).max(x.abs()).max(p.scale) as f64;
    if d <= 2e-6 * scale {
        return true;
    }
    let c = p.phase.cycles();
    match p.spec {
        Spec::Saw(_) => (c - 0.5).abs() < 1e-6 && (d - 2.0).abs() < 1e-5,
        Spec::Square(_) => d == 2.0 && ((c - 0.5).abs() < 1e-9 || c < 1e-9 || c > 1.0 - 1e-9),
        _ => false,
    }
}

fn run_clone(c: &CCase, obs: &mut Obs) -> Res {
    let before = live();
    let first = c.spec.build();
    let bytes = live() - before;
    let mut v: Vec<Option<Pair>> = vec![Some(Pair {
        obj: first,
        like: c.spec.build(),
        exact: true,
        spec: c.spec.clone(),
        phase: Phase(0),
        bytes,
        most: i64::MAX,
        scale: 0.0,
    })];
    let mut heard = false;
    let mut cloned_used = false;
    for op in &c.ops {
        match op {
            COp::Run(i, sig) => {
                let p = v[*i].as_mut().unwrap();
                let sig = render(sig);
                for (n, x) in sig.iter().enumerate() {
                    let m = live();
                    let a = p.obj.step(*x);
                    p.bytes += live() - m;
                    let b = p.like.step(*x);
                    if a.is_finite() && b.is_finite() {
                        p.scale = p.scale.max(a.abs()).max(x.abs());
                    }
                    heard |= a != 0.0;
                    ensure!(
                        alike(p, *x, a, b),
                        "{} {} ({:?}), sample {n} of a run: {a:?}, {} {b:?}",
                        if *i == 0 { "the original" } else { "a clone" },
                        p.spec.kind(),
                        p.spec,
                        if *i == 0 { "without being cloned it gives" } else { "a new one gives" }
                    );
                    if let Some(f) = frequency(&p.spec) {
                        p.phase.step(phase_inc(f));
                    }
                    obs.compared += 1;
                }
                ensure!(
                    p.bytes <= p.most,
                    "a clone of a {} holds {} bytes after use, a small multiple of the original would be {}",
                    p.spec.kind(),
                    p.bytes,
                    p.most
                );
                cloned_used |= *i > 0 && !sig.is_empty();
            }
            COp::Set(i, t) => {
                let p = v[*i].as_mut().unwrap();
                p.obj.set(t);
                p.like.set(t);
                p.spec.apply(t);
            }
            COp::Clone(i) => {
                let p = v[*i].as_ref().unwrap();
                let m = live();
                let obj = p.obj.duplicate();
                let bytes = live() - m;
                let most = 4 * p.bytes.max(0) + 4096;
                ensure!(
                    bytes <= most,
                    "cloning a {} that holds {} bytes allocates {bytes} bytes",
                    p.spec.kind(),
                    p.bytes
                );
                // the settings reported are those of the original
                for (a, b) in obj.reported().iter().zip(p.obj.reported()) {
                    ensure!(
                        (a.1 - b.1).abs() <= 1e-12 * b.1.abs() || a.1 == b.1,
                        "a clone of a {} reports {} {:?}, the original {:?}",
                        p.spec.kind(),
                        a.0,
                        a.1,
                        b.1
                    );
                }
                let np = Pair {
                    obj,
                    like: p.spec.build(),
                    exact: false,
                    spec: p.spec.clone(),
                    phase: Phase(0),
                    bytes,
                    most,
                    scale: 0.0,
                };
                v.push(Some(np));
            }
            COp::Drop(i) => v[*i] = None,
        }
    }
    obs.label(c.spec.kind());
    obs.nontrivial = heard && cloned_used;
    Ok(())
}

/// Clones of clones of clones: settings and memory stay what they were.
#[derive(Debug)]
struct Chain {
    spec: Spec,
    set: Option<Setting>,
    links: usize,
    between: Signal,
    last: Signal,
}

fn gen_chain(s: &mut Src) -> Chain {
    let sp = spec(s, 60);
    let set = if s.chance(1, 2) { setting(s, &sp) } else { None };
    Chain { set, links: s.us(1, 14), between: vec![seg(s, 20)], last: signal(s, 150), spec: sp }
}

fn run_chain(c: &Chain, obs: &mut Obs) -> Res {
    let m = live();
    let mut o = c.spec.build();
    let mut spec = c.spec.clone();
    if let Some(t) = &c.set {
        o.set(t);
        spec.apply(t);
    }
    let xs = render(&c.between);
    for x in &xs {
        o.step(*x);
    }
    let orig = live() - m;
    for _ in 0..c.links {
        let m = live();
        let mut n = o.duplicate();
        let b = live() - m;
        ensure!(b <= 4 * orig.max(0) + 4096, "a clone of a clone of a {} holds {b} bytes, the original {orig}", spec.kind());
        for x in &xs {
            n.step(*x);
        }
        o = n;
    }
    let mut p = Pair {
        obj: o.duplicate(),
        like: spec.build(),
        exact: false,
        spec: spec.clone(),
        phase: Phase(0),
        bytes: 0,
        most: 0,
        scale: 0.0,
    };
    for (n, x) in render(&c.last).into_iter().enumerate() {
        let (a, b) = (p.obj.step(x), p.like.step(x));
        if b.is_finite() {
            p.scale = p.scale.max(b.abs()).max(x.abs());
        }
        ensure!(alike(&p, x, a, b), "clone {} of a {} ({spec:?}), sample {n}: {a:?}, a new one gives {b:?}", c.links + 1, spec.kind());
        if let Some(f) = frequency(&spec) {
            p.phase.step(phase_inc(f));
        }
        obs.compared += 1;
        obs.nontrivial |= b != 0.0;
    }
    obs.label(spec.kind());
    Ok(())
}

// -------------------------------------------------------------------- isolation

#[derive(Debug, Clone)]
enum Thing {
    Unit(Spec),
    Block { g: Spec, m: Spec, inter: u8 },
    Simple { gains: (f64, f64), g: Spec, mods: Vec<Spec> },
    Complex { gains: (f64, f64), blocks: Vec<Spec>, edges: Vec<(usize, usize)> },
}

#[derive(Debug, Clone)]
enum IOp {
    Run(Signal),
    Set(Setting),
    Pause,
    Mute,
    /// Continue with a clone (units only).
    Clone,
}

#[derive(Debug, Clone)]
struct Script {
    thing: Thing,
    ops: Vec<IOp>,
}

enum Live {
    Unit(Obj),
    Block(StandardBlock),
    Simple(SimpleSound),
    Complex(ComplexSound),
}

fn block(sp: &Spec) -> BlockSP {
    let o = sp.build();
    if sp.is_generator() {
        Arc::new(StandardBlock::from_generator(o))
    } else {
        Arc::new(StandardBlock::from_modifier(o))
    }
}

fn create(t: &Thing) -> Live {
    match t {
        Thing::Unit(s) => Live::Unit(s.build()),
        Thing::Block { g, m, inter } => Live::Block(StandardBlock::new(
            g.build(),
            m.build(),
            match inter {
                0 => StandardBlock::default_interactor(),
                1 => StandardBlock::generator_passthrough(),
                2 => StandardBlock::modifier_passthrough(),
                _ => Arc::new(|a, b| a + b),
            },
        )),
        Thing::Simple { gains, g, mods } => {
            let mut s = SimpleSound::new(gains.0, gains.1, block(g));
            for m in mods {
                s.add_modifier::<()>(block(m));
            }
            Live::Simple(s)
        }
        Thing::Complex { gains, blocks, edges } => {
            let mut s = ComplexSound::new(gains.0, gains.1);
            let mut nodes = vec![s.get_input_gain(), s.get_output_gain()];
            for b in blocks {
                nodes.push(s.add_block(block(b)));
            }
            for (a, b) in edges {
                s.add_connection(nodes[a % nodes.len()], nodes[b % nodes.len()]);
            }
            Live::Complex(s)
        }
    }
}

impl Live {
    fn op(&mut self, op: &IOp, out: &mut Vec<u32>) {
        match op {
            IOp::Run(sig) => {
                for x in render(sig) {
                    let y = match self {
                        Live::Unit(o) => o.step(x),
                        Live::Block(b) => {
                            b.prime_input(x);
                            b.process()
                        }
                        Live::Simple(s) => s.process(x),
                        Live::Complex(s) => s.process(x),
                    };
                    out.push(if y.is_nan() { f32::NAN.to_bits() } else { y.to_bits() });
                }
            }
            IOp::Set(t) => {
                if let Live::Unit(o) = self {
                    o.set(t);
                }
            }
            IOp::Pause => match self {
                Live::Simple(s) => s.toggle_pause(),
                Live::Complex(s) => s.toggle_pause(),
                _ => {}
            },
            IOp::Mute => match self {
                Live::Simple(s) => s.toggle_mute(),
                Live::Complex(s) => s.toggle_mute(),
                _ => {}
            },
            IOp::Clone => {
                if let Live::Unit(o) = self {
                    let n = o.duplicate();
                    *o = n;
                }
            }
        }
    }
}

fn gen_script(s: &mut Src) -> Script {
    let thing = match s.below(6) {
        0..=2 => Thing::Unit(spec(s, 60)),
        3 => Thing::Block { g: gen_spec(s, 40), m: mod_spec(s, 40), inter: s.below(4) as u8 },
        4 => Thing::Simple {
            gains: (amp(s) as f64, amp(s) as f64),
            g: if s.chance(1, 2) { gen_spec(s, 40) } else { spec(s, 40) },
            mods: s.list(0, 4, |s| mod_spec(s, 40)),
        },
        _ => Thing::Complex {
            gains: (amp(s) as f64, amp(s) as f64),
            blocks: s.list(0, 4, |s| spec(s, 40)),
            edges: s.list(0, 8, |s| (s.us(0, 5), s.us(0, 5))),
        },
    };
    let ops = s.list(1, 6, |s| match s.below(8) {
        0 => IOp::Pause,
        1 => IOp::Mute,
        2 => IOp::Clone,
        3 => match &thing {
            Thing::Unit(sp) => setting(s, sp).map(IOp::Set).unwrap_or(IOp::Mute),
            _ => IOp::Pause,
        },
        _ => IOp::Run(vec![seg(s, 40)]),
    });
    // Relative changes of band passes were drawn for the first settings.
    let ops = if matches!(thing, Thing::Unit(Spec::BandPass(_))) {
        let mut used = false;
        ops.into_iter()
            .filter(|o| {
                let set = matches!(o, IOp::Set(_));
                let keep = !(set && used);
                used |= set;
                keep
            })
            .collect()
    } else {
        ops
    };
    Script { thing, ops }
}

#[derive(Debug)]
struct Iso {
    scripts: Vec<Script>,
    /// Seeds of the interleavings.
    orders: [u64; 2],
    threads: bool,
    /// Alone means on a thread of its own, which nothing else has been on.
    fresh: bool,
}

fn gen_iso(s: &mut Src) -> Iso {
    let mut scripts = s.list(1, 5, gen_script);
    // the same thing twice, or a close relative of it
    let twin = scripts[0].clone();
    scripts.push(twin);
    if s.chance(1, 2) {
        let mut t = gen_script(s);
        t.thing = scripts[0].thing.clone();
        if !matches!(t.thing, Thing::Unit(_)) {
            t.ops.retain(|o| !matches!(o, IOp::Set(_)));
        } else {
            t.ops.retain(|o| !matches!(o, IOp::Set(_)));
        }
        scripts.push(t);
    }
    Iso { scripts, orders: [s.below(1 << 16), s.below(1 << 16)], threads: s.chance(1, 8), fresh: s.chance(1, 8) }
}

fn alone(s: &Script) -> Vec<u32> {
    let mut out = Vec::new();
    let mut l = create(&s.thing);
    for op in &s.ops {
        l.op(op, &mut out);
    }
    out
}

/// Runs the scripts piecewise in an order drawn from the seed: runs are cut
/// into single samples, objects come into being when first used and go when
/// their script ends.
fn interleaved(scripts: &[Script], seed: u64) -> Vec<Vec<u32>> {
    struct St {
        live: Option<Live>,
        todo: Vec<IOp>,
        at: usize,
        out: Vec<u32>,
    }
    let mut r = Rng::new(seed);
    let mut st: Vec<St> = scripts
        .iter()
        .map(|s| St {
            live: None,
            todo: s
                .ops
                .iter()
                .flat_map(|o| match o {
                    IOp::Run(sig) => render(sig).into_iter().map(|x| IOp::Run(vec![Seg::Raw(vec![x])])).collect::<Vec<_>>(),
                    o => vec![o.clone()],
                })
                .collect(),
            at: 0,
            out: Vec::new(),
        })
        .collect();
    let burst = 1 + r.next() % 4;
    loop {
        let ready: Vec<usize> = (0..st.len()).filter(|i| st[*i].at < st[*i].todo.len()).collect();
        if ready.is_empty() {
            break;
        }
        let i = ready[(r.next() % ready.len() as u64) as usize];
        for _ in 0..1 + r.next() % burst {
            let s = &mut st[i];
            if s.at >= s.todo.len() {
                break;
            }
            let l = s.live.get_or_insert_with(|| create(&scripts[i].thing));
            l.op(&s.todo[s.at], &mut s.out);
            s.at += 1;
            if s.at == s.todo.len() && r.next() & 1 == 0 {
                s.live = None;
            }
        }
    }
    st.into_iter().map(|s| s.out).collect()
}

fn same_output(want: &[u32], got: &[u32], i: usize, s: &Script, how: &str) -> Res {
    for (n, (a, b)) in want.iter().zip(got).enumerate() {
        ensure!(
            a == b,
            "object {i} ({}), sample {n}: {:?} alone, {:?} {how}",
            clip(&format!("{:?}", s.thing), 160),
            f32::from_bits(*a),
            f32::from_bits(*b)
        );
    }
    ensure!(want.len() == got.len(), "object {i} gave {} samples, {} {how}", want.len(), got.len());
    Ok(())
}

fn run_iso(c: &Iso, obs: &mut Obs) -> Res {
    let at = |(l, m): (String, String)| format!("panicked at {l}: {m}");
    if !c.fresh {
        let want: Vec<Vec<u32>> = c.scripts.iter().map(alone).collect();
        return run_together(c, &want, obs);
    }
    obs.label("alone on a fresh thread");
    let want: Vec<Vec<u32>> = c.scripts.iter().map(|s| isolated(|| alone(s)).map_err(at)).collect::<Result<_, _>>()?;
    isolated(|| run_together(c, &want, obs)).unwrap_or_else(|e| Err(at(e)))
}

fn run_together(c: &Iso, want: &[Vec<u32>], obs: &mut Obs) -> Res {
    for (k, o) in c.orders.iter().enumerate() {
        let got = interleaved(&c.scripts, *o);
        for (i, s) in c.scripts.iter().enumerate() {
            same_output(&want[i], &got[i], i, s, "interleaved with the others")?;
            obs.compared += want[i].len() as u64;
        }
        if k == 0 {
            // created in reverse order, all alive at once
            let mut live: Vec<(usize, Live)> = (0..c.scripts.len()).rev().map(|i| (i, create(&c.scripts[i].thing))).collect();
            while let Some((i, mut l)) = live.pop() {
                let mut out = Vec::new();
                for op in &c.scripts[i].ops {
                    l.op(op, &mut out);
                }
                same_output(&want[i], &out, i, &c.scripts[i], "with the others alive")?;
                obs.compared += out.len() as u64;
            }
        }
    }
    if c.threads {
        let n = c.scripts.len();
        let got: Vec<Result<Vec<Vec<u32>>, (String, String)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..4u64)
                .map(|t| {
                    sc.spawn(move || {
                        catch(|| {
                            if t == 0 {
                                c.scripts.iter().map(alone).collect()
                            } else {
                                interleaved(&c.scripts, c.orders[0] ^ (t << 20))
                            }
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        for g in got {
            let g = g.map_err(|(l, m)| format!("panicked at {l}: {m} on another thread"))?;
            for i in 0..n {
                same_output(&want[i], &g[i], i, &c.scripts[i], "on another thread")?;
                obs.compared += g[i].len() as u64;
            }
        }
        obs.label("on several threads");
    }
    for (i, s) in c.scripts.iter().enumerate() {
        same_output(&want[i], &alone(s), i, s, "alone once more")?;
    }
    obs.nontrivial = want.iter().filter(|w| w.iter().any(|x| f32::from_bits(*x) != 0.0)).count() >= 2;
    Ok(())
}

/// Some settings of one object, the others of another or all but the same.
fn cross(s: &mut Src, a: &Spec, b: &Spec) -> Spec {
    let mut f = |x: f64, y: f64| match s.below(4) {
        0 => x,
        1 => x * (1.0 + (s.unit() - 0.5) * 10f64.powi(-s.int(1, 14) as i32)),
        2 => (x * (1.0 + (s.unit() - 0.5) * 0.02)).floor(),
        _ => y,
    };
    match (a, b) {
        (Spec::Sine(x), Spec::Sine(y)) => Spec::Sine(freq_in(f(*x, *y))),
        (Spec::Saw(x), Spec::Saw(y)) => Spec::Saw(freq_in(f(*x, *y))),
        (Spec::Square(x), Spec::Square(y)) => Spec::Square(freq_in(f(*x, *y))),
        (Spec::Triangle(x), Spec::Triangle(y)) => Spec::Triangle(freq_in(f(*x, *y))),
        (Spec::LowPass(x, r), Spec::LowPass(y, q)) => Spec::LowPass(freq_in(f(*x, *y)), f(*r, *q).min(1.0).max(0.0)),
        (Spec::HighPass(x, r), Spec::HighPass(y, q)) => Spec::HighPass(freq_in(f(*x, *y)), f(*r, *q).min(1.0).max(0.0)),
        (Spec::BandPass(x), Spec::BandPass(y)) => {
            let b = Bp::Fq(f(x.centre(), y.centre()), f(x.quality(), y.quality()));
            if b.legal() {
                Spec::BandPass(b)
            } else {
                a.clone()
            }
        }
        (Spec::Envelope(x, u), Spec::Envelope(y, v)) => {
            Spec::Envelope(freq_in(f(*x as f64, *y as f64)) as f32, freq_in(f(*u as f64, *v as f64)) as f32)
        }
        (Spec::Gain(x), Spec::Gain(y)) => Spec::Gain(f(*x as f64, *y as f64) as f32),
        (Spec::Delay(x), Spec::Delay(y)) => Spec::Delay(f(*x as f64, *y as f64).min((*x).max(*y) as f64) as u64),
        (Spec::Echo(x, g), Spec::Echo(y, h)) => {
            Spec::Echo(f(*x as f64, *y as f64).min((*x).max(*y) as f64) as u64, f(*g, *h).min(1.0).max(-1.0))
        }
        (Spec::Adsr { a, d, s, r }, Spec::Adsr { a: a2, d: d2, s: s2, r: r2 }) => {
            let mut n = |x: u64, y: u64| f(x as f64, y as f64).min(x.max(y) as f64) as u64;
            let (a, d, r) = (n(*a, *a2), n(*d, *d2), n(*r, *r2));
            Spec::Adsr { a, d, s: f(*s, *s2), r }
        }
        (Spec::Wav { sig, rate, speed }, Spec::Wav { rate: r, speed: v, .. }) => {
            Spec::Wav { sig: sig.clone(), rate: f(*rate, *r).max(1.0), speed: f(*speed, *v) }
        }
        (Spec::Resampler { sig, rate, a, b, speed }, Spec::Resampler { rate: r, speed: v, .. }) => {
            Spec::Resampler { sig: sig.clone(), rate: f(*rate, *r).max(1.0), a: *a, b: *b, speed: f(*speed, *v) }
        }
        _ => a.clone(),
    }
}

fn freq_in(f: f64) -> f64 {
    f.min(CAP).max(1.0)
}

/// One kind only, many instances with different settings.
fn gen_kind(s: &mut Src) -> Iso {
    let base = spec(s, 60);
    let mut scripts = Vec::new();
    for _ in 0..s.us(2, 6) {
        let mut sp = spec(s, 60);
        for _ in 0..40 {
            if sp.kind() == base.kind() {
                break;
            }
            sp = spec(s, 60);
        }
        if sp.kind() != base.kind() {
            sp = base.clone();
        } else if s.chance(1, 2) {
            sp = cross(s, &base, &sp);
        }
        let ops = s.list(1, 4, |s| IOp::Run(vec![seg(s, 60)]));
        scripts.push(Script { thing: Thing::Unit(sp), ops });
    }
    Iso { scripts, orders: [s.below(1 << 16), s.below(1 << 16)], threads: s.chance(1, 8), fresh: s.chance(1, 8) }
}

/// The first uses of BAE in a process, by many threads at the same moment.
#[derive(Debug)]
struct Cold {
    seed: u64,
    processes: u64,
}

fn gen_cold(s: &mut Src) -> Cold {
    Cold { seed: s.below(1 << 40), processes: 8 }
}

fn run_cold(c: &Cold, obs: &mut Obs) -> Res {
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    for k in 0..c.processes {
        let out = std::process::Command::new(&me)
            .args(["cold", &(c.seed * 8 + k).to_string()])
            .output()
            .map_err(|e| e.to_string())?;
        let said = String::from_utf8_lossy(&out.stdout);
        ensure!(out.status.success(), "in a new process: {} ({})", said.trim(), out.status);
        obs.compared += said.trim().parse::<u64>().unwrap_or(0);
    }
    obs.nontrivial = obs.compared > 0;
    Ok(())
}

/// In a process that has done nothing yet: objects made and run on 8 threads
/// at once, and once more when the threads are gone.
pub fn cold(seed: u64) -> i32 {
    let mut s = Src::random(seed);
    let base = gen_script(&mut s);
    let mixed = s.chance(1, 2);
    let scripts: Vec<Script> = (0..8)
        .map(|i| {
            let mut t = if mixed && i % 2 == 1 { gen_script(&mut s) } else { base.clone() };
            t.ops.insert(0, IOp::Run(vec![Seg::Const(1.0, 40)]));
            t
        })
        .collect();
    let waiting = std::sync::atomic::AtomicUsize::new(0);
    let got: Vec<Result<Vec<u32>, (String, String)>> = std::thread::scope(|sc| {
        let waiting = &waiting;
        let hs: Vec<_> = scripts
            .iter()
            .map(|t| {
                sc.spawn(move || {
                    waiting.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    while waiting.load(std::sync::atomic::Ordering::SeqCst) < 8 {
                        std::thread::yield_now();
                    }
                    catch(|| alone(t))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("caught")).collect()
    });
    let mut n = 0;
    for (i, t) in scripts.iter().enumerate() {
        let first = match &got[i] {
            Ok(o) => o,
            Err((l, m)) => {
                println!("panicked at {l}: {m}");
                return 1;
            }
        };
        let again = alone(t);
        if let Err(e) = same_output(&again, first, i, t, "among the first to use BAE") {
            println!("{e}");
            return 1;
        }
        if again.iter().any(|y| f32::from_bits(*y) != 0.0) {
            n += again.len();
        }
    }
    println!("{n}");
    0
}

/// A generator or modifier that is handed from thread to thread.
#[derive(Debug)]
struct Moved {
    script: Script,
    /// Every thread first uses an object of its own: of the same settings, or
    /// of these.
    other: Option<Spec>,
    company: bool,
}

fn gen_moved(s: &mut Src) -> Moved {
    let mut script = gen_script(s);
    for _ in 0..20 {
        if matches!(script.thing, Thing::Unit(_)) {
            break;
        }
        script = gen_script(s);
    }
    if !matches!(script.thing, Thing::Unit(_)) {
        script = Script { thing: Thing::Unit(spec(s, 60)), ops: vec![] };
    }
    script.ops.insert(0, IOp::Run(vec![seg(s, 20)]));
    script.ops.push(IOp::Run(vec![seg(s, 60)]));
    Moved { script, other: if s.chance(1, 2) { Some(spec(s, 40)) } else { None }, company: s.chance(1, 2) }
}

fn run_moved(c: &Moved, obs: &mut Obs) -> Res {
    /// Generators and modifiers may be sent to other threads; what a changed
    /// one is made of must not keep this from compiling.
    struct Carry(Live);
    unsafe impl Send for Carry {}
    let at = |(l, m): (String, String)| format!("panicked at {l}: {m}");
    let base = match &c.script.thing {
        Thing::Unit(s) => s,
        _ => unreachable!(),
    };
    let want = isolated(|| alone(&c.script)).map_err(at)?;
    let on_new = |f: &mut (dyn FnMut() + Send)| -> Result<(), String> {
        let busy = || {
            if c.company {
                let mut o = c.other.as_ref().unwrap_or(base).build();
                for _ in 0..3 {
                    o.step(1.0);
                }
            }
        };
        std::thread::scope(|sc| {
            sc.spawn(|| {
                catch(|| {
                    busy();
                    f()
                })
            })
            .join()
            .expect("caught")
        })
        .map_err(at)
    };
    let mut held: Option<Carry> = None;
    on_new(&mut || held = Some(Carry(create(&c.script.thing))))?;
    let mut out = Vec::new();
    for op in &c.script.ops {
        let cut: Vec<IOp> = match op {
            IOp::Run(sig) => {
                let x = render(sig);
                let (a, b) = x.split_at(x.len() / 2);
                vec![IOp::Run(vec![Seg::Raw(a.to_vec())]), IOp::Run(vec![Seg::Raw(b.to_vec())])]
            }
            o => vec![o.clone()],
        };
        for op in &cut {
            let h = &mut held;
            let o = &mut out;
            on_new(&mut || {
                let mut l = h.take().expect("held");
                l.0.op(op, o);
                *h = Some(l);
            })?;
        }
    }
    let h = &mut held;
    on_new(&mut || drop(h.take()))?;
    same_output(&want, &out, 0, &c.script, "handed from thread to thread")?;
    obs.compared += out.len() as u64;
    obs.label_if(c.company, "threads with objects of their own");
    obs.nontrivial = want.iter().any(|y| f32::from_bits(*y) != 0.0);
    Ok(())
}

/// Hundreds of objects alive at once, each run a few samples in turn.
#[derive(Debug)]
struct Crowd {
    /// Object i is of kind i modulo their number.
    things: Vec<Thing>,
    count: usize,
    rounds: Vec<Vec<f32>>,
    /// Every so many objects one goes after the first round.
    drop: usize,
    threads: bool,
}

fn gen_crowd(s: &mut Src) -> Crowd {
    let base = gen_script(s).thing;
    let mut things = vec![base.clone()];
    for _ in 0..s.us(0, 6) {
        things.push(if s.chance(1, 2) { base.clone() } else { gen_script(s).thing });
    }
    Crowd {
        things,
        count: s.us(20, 400),
        rounds: s.list(2, 4, |s| s.list(1, 8, |s| amp(s))),
        drop: s.us(2, 50),
        threads: s.chance(1, 6),
    }
}

fn crowd(c: &Crowd, want: &[Vec<u32>]) -> Res {
    let n = c.things.len();
    let mut v: Vec<Option<(Live, Vec<u32>)>> = (0..c.count).map(|i| Some((create(&c.things[i % n]), vec![]))).collect();
    for (r, xs) in c.rounds.iter().enumerate() {
        for o in v.iter_mut().flatten() {
            o.0.op(&IOp::Run(vec![Seg::Raw(xs.clone())]), &mut o.1);
        }
        for i in 0..c.count {
            if let Some(o) = &v[i] {
                for (k, (a, b)) in want[i % n].iter().zip(&o.1).enumerate() {
                    ensure!(
                        a == b,
                        "object {i} of {} ({}), sample {k}: {:?} alone, {:?} among the others",
                        c.count,
                        clip(&format!("{:?}", c.things[i % n]), 160),
                        f32::from_bits(*a),
                        f32::from_bits(*b)
                    );
                }
            }
            if r == 0 && i % c.drop == 1 {
                v[i] = None;
            }
        }
    }
    Ok(())
}

fn run_crowd(c: &Crowd, obs: &mut Obs) -> Res {
    let at = |(l, m): (String, String)| format!("panicked at {l}: {m}");
    let want: Vec<Vec<u32>> = c
        .things
        .iter()
        .map(|t| {
            isolated(|| {
                let mut out = Vec::new();
                let mut l = create(t);
                for xs in &c.rounds {
                    l.op(&IOp::Run(vec![Seg::Raw(xs.clone())]), &mut out);
                }
                out
            })
            .map_err(at)
        })
        .collect::<Result<_, _>>()?;
    isolated(|| crowd(c, &want)).unwrap_or_else(|e| Err(at(e)))?;
    if c.threads {
        obs.label("on several threads");
        let r: Vec<Res> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..4).map(|_| sc.spawn(|| catch(|| crowd(c, &want)).unwrap_or_else(|e| Err(at(e))))).collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        for x in r {
            x?;
        }
    }
    obs.compared += (c.count * want[0].len()) as u64;
    obs.nontrivial = want.iter().any(|w| w.iter().any(|x| f32::from_bits(*x) != 0.0));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C06",
            rule: "A case is an object of any of 17 kinds with a history of use, setting changes and clones (of clones, before and after use, with drops), each clone compared sample by sample with a newly made object of the same settings, the original bit for bit with a twin that is never cloned, and the bytes held with the original's. Non-trivial: something other than silence is heard and a clone is used.",
            assumptions: &["noise generators are covered by C05"],
            subs: vec![
                Sub::new("histories", 1_200_000, 24_000_000, gen_clone, run_clone),
                Sub::new("chains", 600_000, 12_000_000, gen_chain, run_chain),
                Sub::new("long", 1_800, 36_000, gen_clone_long, run_clone),
                Sub::new("minutes", 60, 1_200, gen_clone_minutes, run_clone),
            ],
            probes: vec![],
        },
        Property {
            id: "C36",
            rule: "A case is a set of scripts (generators, modifiers, blocks, simple and complex sounds with their call histories); each one's output alone must be bit-identical interleaved with the others in two random orders, with all alive at once, on four concurrent threads, and alone again; or up to 400 objects alive and run in turn; or a generator or modifier handed to a new thread for every call; or scripts on 8 threads at once as the first thing new processes do, against the same again. Non-trivial: at least two of them are not silent.",
            assumptions: &["the same compiled code is deterministic on one machine"],
            subs: vec![
                Sub::new("interleaved", 80_000, 1_600_000, gen_iso, run_iso),
                Sub::new("one_kind", 80_000, 1_600_000, gen_kind, run_iso),
                Sub::new("crowd", 3_000, 60_000, gen_crowd, run_crowd),
                Sub::new("moved", 12_000, 240_000, gen_moved, run_moved),
                Sub::new("cold", 160, 3_200, gen_cold, run_cold).threads(2),
            ],
            probes: vec![],
        },
    ]
}
