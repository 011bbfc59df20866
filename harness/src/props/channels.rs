//! C31, C32: channels.

use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use crate::kinds::*;
use bae_rs::channels::{Channel, StandardChannel};
use bae_rs::sounds::{SimpleSound, Sound, StandardBlock};
use bae_rs::{Mono, SampleFormat, Stereo};
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

/// What happened to a recording sound.
#[derive(Default, Debug)]
struct Rec {
    processed: u64,
    registered: Vec<usize>,
    unregistered: u64,
    toggled: u64,
}

struct Recorder {
    seed: u64,
    n: u64,
    id: Option<usize>,
    rec: Rc<RefCell<Rec>>,
}

/// The n-th sample of the sound with this seed, an integer.
fn nth(seed: u64, n: u64) -> f32 {
    let h = mix(seed.wrapping_mul(0x1_0000_0001) ^ n);
    (h % 2001) as f32 - 1000.0
}

impl Sound for Recorder {
    fn toggle_pause(&mut self) {
        self.rec.borrow_mut().toggled += 1;
    }
    fn is_paused(&self) -> bool {
        false
    }
    fn toggle_mute(&mut self) {
        self.rec.borrow_mut().toggled += 1;
    }
    fn is_muted(&self) -> bool {
        false
    }
    fn process(&mut self, _: f32) -> f32 {
        self.rec.borrow_mut().processed += 1;
        let y = nth(self.seed, self.n);
        self.n += 1;
        y
    }
    fn register(&mut self, id: usize) {
        self.rec.borrow_mut().registered.push(id);
        self.id = Some(id);
    }
    fn unregister(&mut self) {
        self.rec.borrow_mut().unregistered += 1;
        self.id = None;
    }
    fn get_id(&self) -> Option<usize> {
        self.id
    }
}

type Handle = Arc<dyn Sound>;

#[derive(Debug, Clone)]
enum Op {
    /// A new sound into channel c.
    Add(usize),
    /// A new sound into channel c whose handle is kept until it is let go of or
    /// taken out and added again.
    AddHeld(usize),
    LetGo,
    /// Take the held sound out again and add it to channel c.
    Move(usize),
    /// Remove the k-th sound ever added to channel c (also if it is out).
    Remove(usize, usize),
    RemoveUnknown(usize, usize),
    Gain(usize, f64),
    Time(usize, u64),
    Process(usize),
}

#[derive(Debug)]
struct Case {
    stereo: bool,
    gains: Vec<f64>,
    ops: Vec<Op>,
    /// Whether a sound whose handle is held may be left out is not judged here.
    skip_ok: bool,
}

fn chan_gain(s: &mut Src) -> f64 {
    match s.below(4) {
        0 => s.pick(&[1.0, 0.5, 0.0, -1.0, 2.0, -2.0, 8.0, -0.5]),
        1 => s.logu(1e-4, 1e3),
        2 => -s.logu(1e-4, 1e3),
        _ => s.uni(-1.0, 1.0),
    }
}

fn time(s: &mut Src, max: usize) -> u64 {
    let k = s.size(max) as u64;
    let up = |k: u64| ((k as u128 * 1_000_000_000 + 47_999) / 48_000) as u64;
    match s.below(6) {
        0 => up(k),
        1 => up(k).saturating_sub(1),
        2 => up(k) + s.below(20_833),
        3 => s.below(max as u64 * 20_833 + 1),
        4 => s.int(0, (max as i64 / 48).max(1)) as u64 * 1_000_000,
        _ => 10_000_000,
    }
}

fn gen_ops(s: &mut Src, channels: usize, max: usize, mostly_ids: bool) -> Vec<Op> {
    let mut held = false;
    // a held sound is let go of before processing, or not (see the known finding)
    let let_go = s.chance(2, 3);
    let mut v = vec![Op::Time(0, time(s, max))];
    for c in 1..channels {
        v.push(Op::Time(c, time(s, max)));
    }
    let n = s.us(3, 40);
    for _ in 0..n {
        let c = s.us(0, channels - 1);
        let op = match s.below(if mostly_ids { 20 } else { 26 }) {
            0..=5 => Op::Add(c),
            6 => {
                if held {
                    held = false;
                    Op::LetGo
                } else {
                    held = true;
                    Op::AddHeld(c)
                }
            }
            7 if held => Op::Move(c),
            8..=12 => Op::Remove(c, s.us(0, 12)),
            13 => Op::RemoveUnknown(c, if s.chance(1, 2) { s.us(0, 40) } else { s.u64() as usize }),
            14 => Op::Gain(c, chan_gain(s)),
            15 => Op::Time(c, time(s, max)),
            _ => {
                if held && let_go {
                    held = false;
                    v.push(Op::LetGo);
                }
                Op::Process(c)
            }
        };
        v.push(op);
    }
    if held {
        v.push(Op::LetGo);
    }
    for c in 0..channels {
        v.push(Op::Process(c));
        v.push(Op::Process(c));
    }
    v
}

fn gen_mix(s: &mut Src) -> Case {
    let channels = s.us(1, 2);
    let max = s.pick(&[4usize, 40, 500]);
    let ops = gen_ops(s, channels, max, false);
    Case { stereo: s.chance(1, 2), gains: (0..channels).map(|_| chan_gain(s)).collect(), ops, skip_ok: false }
}

fn gen_ids(s: &mut Src) -> Case {
    let channels = s.us(1, 3);
    let ops = gen_ops(s, channels, 3, true);
    Case { stereo: s.chance(1, 2), gains: (0..channels).map(|_| chan_gain(s)).collect(), ops, skip_ok: true }
}

fn gen_long(s: &mut Src) -> Case {
    let mut c = gen_mix(s);
    for op in &mut c.ops {
        if let Op::Time(_, t) = op {
            *t = if s.chance(1, 8) { s.logu(2e9, 12e9) } else { s.logu(1e6, 2e9) } as u64;
        }
    }
    c
}

/// Minutes in one go.
fn gen_huge(s: &mut Src) -> Case {
    let ns = (s.pick(&[1u64 << 20, 1 << 21, 3_000_000, (1 << 24) + 1]) + s.below(1000)) * 62_500 / 3 + 10_000;
    let mut ops = vec![Op::Add(0)];
    if s.chance(1, 2) {
        ops.push(Op::Add(0));
    }
    ops.extend([Op::Time(0, ns), Op::Process(0), Op::Time(0, s.below(1 << 24)), Op::Gain(0, chan_gain(s)), Op::Process(0)]);
    Case { stereo: s.chance(1, 2), gains: vec![chan_gain(s)], ops, skip_ok: false }
}

/// Thousands of changes and processings.
fn gen_many(s: &mut Src) -> Case {
    let mut ops: Vec<Op> = (0..s.us(1, 4)).map(|_| Op::Add(0)).collect();
    let mut r = Rng::new(s.below(1 << 16));
    let (n, max) = if s.chance(1, 8) { (s.us(70_000, 150_000), 30_000.0) } else { (s.us(2_000, 10_000), 200_000.0) };
    for _ in 0..n {
        ops.push(match r.next() >> 40 & 3 {
            0 => Op::Gain(0, r.unit() * 4.0 - 2.0),
            1 => Op::Time(0, (r.unit() * max) as u64),
            _ => Op::Process(0),
        });
    }
    ops.push(Op::Process(0));
    Case { stereo: s.chance(1, 2), gains: vec![chan_gain(s)], ops, skip_ok: false }
}

/// Up to 300 sounds at once in one channel.
fn gen_crowd(s: &mut Src) -> Case {
    let channels = s.us(1, 2);
    let mut ops: Vec<Op> = (0..channels).map(|c| Op::Time(c, time(s, 40))).collect();
    for _ in 0..s.us(1, 3) {
        let c = s.us(0, channels - 1);
        let many = s.us(20, 130);
        ops.extend((0..many).map(|_| Op::Add(c)));
        for _ in 0..s.us(0, 40) {
            ops.push(Op::Remove(c, s.us(0, 300)));
        }
        if s.chance(1, 2) {
            ops.push(Op::Gain(c, chan_gain(s)));
        }
        for c in 0..channels {
            ops.push(Op::Process(c));
        }
    }
    ops.push(Op::Process(0));
    Case { stereo: s.chance(1, 2), gains: (0..channels).map(|_| chan_gain(s)).collect(), ops, skip_ok: false }
}

/// Sounds that come and go, far more of them than are ever in at once.
#[derive(Debug)]
struct Churn {
    stereo: bool,
    count: usize,
    stay: usize,
    /// Every so many sounds one stays until the end.
    keep: usize,
    order: u64,
    unknown: bool,
}

fn gen_churn(s: &mut Src) -> Churn {
    Churn {
        stereo: s.chance(1, 2),
        count: s.pick(&[300, 3_000, 66_000, 70_000, 140_000]),
        stay: s.us(1, 12),
        keep: s.us(1_000, 20_000),
        order: s.below(1 << 16),
        unknown: s.chance(1, 2),
    }
}

fn run_churn_in<SF: Parts + 'static>(c: &Churn, obs: &mut Obs) -> Res {
    let mut ch: StandardChannel<SF> = StandardChannel::new(1.0);
    let mut r = Rng::new(c.order);
    let mut used = HashSet::new();
    // id, seed, samples so far, record
    let mut inside: Vec<(usize, u64, u64, Rc<RefCell<Rec>>)> = Vec::new();
    let mut kept: HashSet<usize> = HashSet::new();
    ch.set_process_time(Duration::from_nanos(62_500)); // 3 samples
    let unit = SF::from_sample(1.0).parts()[0] as f64;
    for k in 0..c.count {
        let (mut h, rec) = recorder(k as u64);
        ch.add_sound(&mut h);
        let id = match h.get_id() {
            Some(i) => i,
            None => return Err(format!("sound {k} has no id after it was added")),
        };
        ensure!(rec.borrow().registered == [id], "sound {k} was registered as {:?}, it reports {id}", rec.borrow().registered);
        ensure!(used.insert(id), "sound {k} was given id {id}, which an earlier sound had");
        inside.push((id, k as u64, 0, rec));
        if k % c.keep == 0 {
            kept.insert(id);
        }
        drop(h);
        if inside.len() > c.stay + kept.len() {
            let out: Vec<usize> = (0..inside.len()).filter(|i| !kept.contains(&inside[*i].0)).collect();
            let i = out[(r.next() % out.len() as u64) as usize];
            let id = inside.remove(i).0;
            ch.remove_sound(id);
            if c.unknown && r.next() % 64 == 0 {
                ch.remove_sound(id);
            }
        }
        if k + 1 == c.count || k % 997 == 0 {
            ch.process();
            let out = ch.get_output();
            ensure!(out.len() == 3, "{} samples, its process time is 3", out.len());
            for (j, y) in out.iter().enumerate() {
                let want: f64 = inside.iter().map(|e| nth(e.1, e.2 + j as u64) as f64).sum();
                let size: f64 = inside.iter().map(|e| nth(e.1, e.2 + j as u64).abs() as f64).sum();
                for p in y.parts() {
                    ensure!(
                        (p as f64 - want * unit).abs() <= 1e-5 * size,
                        "after {} sounds, {} of which are in, sample {j} is {p:?}, expected {:?}",
                        k + 1,
                        inside.len(),
                        want * unit
                    );
                }
                obs.compared += 1;
            }
            for e in &mut inside {
                e.2 += 3;
                ensure!(e.3.borrow().processed == e.2, "sound {} was processed {} times, not {}", e.1, e.3.borrow().processed, e.2);
                ensure!(e.3.borrow().registered == [e.0] && e.3.borrow().unregistered == 0, "sound {} was registered again or unregistered while in", e.1);
            }
        }
    }
    obs.label_if(c.count > 65_536, "more than 65,536 sounds in turn");
    obs.nontrivial = true;
    Ok(())
}

fn run_churn(c: &Churn, obs: &mut Obs) -> Res {
    if c.stereo {
        run_churn_in::<Stereo>(c, obs)
    } else {
        run_churn_in::<Mono>(c, obs)
    }
}

/// Components of a sample.
trait Parts: SampleFormat + Copy {
    fn parts(self) -> [f32; 2];
}
impl Parts for Mono {
    fn parts(self) -> [f32; 2] {
        [self.mono, self.mono]
    }
}
impl Parts for Stereo {
    fn parts(self) -> [f32; 2] {
        [self.left, self.right]
    }
}

struct Entry {
    seed: u64,
    n: u64,
    id: usize,
    rec: Rc<RefCell<Rec>>,
    inside: bool,
    unregistered: u64,
}

fn samples(ns: u64) -> usize {
    (ns as u128 * 48_000 / 1_000_000_000) as usize
}

fn run_in<SF: Parts + 'static>(c: &Case, obs: &mut Obs) -> Res {
    let mut chans: Vec<StandardChannel<SF>> = c.gains.iter().map(|g| StandardChannel::new(*g)).collect();
    let mut gains = c.gains.clone();
    let mut len = vec![480usize; chans.len()];
    let mut all: Vec<Vec<Entry>> = chans.iter().map(|_| Vec::new()).collect();
    let mut used: Vec<HashSet<usize>> = chans.iter().map(|_| HashSet::new()).collect();
    let mut held: Option<(usize, usize, Handle)> = None; // channel, entry, handle
    let mut seeds = 0u64;
    let (mut removed, mut mixed, mut blocks) = (0, 0, 0);

    fn join<SF: Parts>(
        c: usize,
        chan: &mut StandardChannel<SF>,
        h: &mut Handle,
        seed: u64,
        n: u64,
        rec: &Rc<RefCell<Rec>>,
        all: &mut Vec<Entry>,
        used: &mut HashSet<usize>,
    ) -> Res {
        let before = rec.borrow().registered.len();
        chan.add_sound(h);
        let r = rec.borrow();
        let unregistered = r.unregistered;
        ensure!(r.registered.len() == before + 1, "adding a sound registered it {} times", r.registered.len() - before);
        let id = r.registered[before];
        ensure!(used.insert(id), "channel {c} gave id {id} to a second sound");
        ensure!(h.get_id() == Some(id), "the sound added as {id} reports {:?}", h.get_id());
        drop(r);
        all.push(Entry { seed, n, id, rec: rec.clone(), inside: true, unregistered });
        Ok(())
    }

    for (k, op) in c.ops.iter().enumerate() {
        match op {
            Op::Add(ch) | Op::AddHeld(ch) => {
                seeds += 1;
                let rec = Rc::new(RefCell::new(Rec::default()));
                let mut h: Handle = Arc::new(Recorder { seed: seeds, n: 0, id: None, rec: rec.clone() });
                join(*ch, &mut chans[*ch], &mut h, seeds, 0, &rec, &mut all[*ch], &mut used[*ch])?;
                if let Op::AddHeld(_) = op {
                    held = Some((*ch, all[*ch].len() - 1, h));
                }
            }
            Op::LetGo => held = None,
            Op::Move(to) => {
                if let Some((ch, i, mut h)) = held.take() {
                    let (seed, n, rec, id) = {
                        let e = &mut all[ch][i];
                        e.inside = false;
                        (e.seed, e.n, e.rec.clone(), e.id)
                    };
                    chans[ch].remove_sound(id);
                    removed += 1;
                    join(*to, &mut chans[*to], &mut h, seed, n, &rec, &mut all[*to], &mut used[*to])?;
                    held = Some((*to, all[*to].len() - 1, h));
                }
            }
            Op::Remove(ch, i) => {
                if !all[*ch].is_empty() {
                    let i = i % all[*ch].len();
                    let e = &mut all[*ch][i];
                    chans[*ch].remove_sound(e.id);
                    removed += e.inside as u32;
                    e.inside = false;
                }
            }
            Op::RemoveUnknown(ch, id) => {
                if !used[*ch].contains(id) {
                    chans[*ch].remove_sound(*id);
                }
            }
            Op::Gain(ch, g) => {
                chans[*ch].set_gain(*g);
                gains[*ch] = *g;
            }
            Op::Time(ch, ns) => {
                chans[*ch].set_process_time(Duration::from_nanos(*ns));
                len[*ch] = samples(*ns);
            }
            Op::Process(ch) => {
                let counts: Vec<Vec<u64>> = all.iter().map(|v| v.iter().map(|e| e.rec.borrow().processed).collect()).collect();
                chans[*ch].process();
                blocks += 1;
                let out = chans[*ch].get_output();
                let n = len[*ch];
                ensure!(out.len() == n, "op {k}: channel {ch} outputs {} samples, its process time is {n} samples", out.len());
                let g = gains[*ch] as f32 as f64;
                let tol = 2e-6 + 6e-8 * all[*ch].iter().filter(|e| e.inside).count() as f64;
                let skipped = match &held {
                    Some((hc, hi, _)) if hc == ch && all[*hc][*hi].inside && all[*hc][*hi].rec.borrow().processed == counts[*hc][*hi] => {
                        let known = c.skip_ok || is_known("kept-handle");
                        ensure!(known || n == 0, "op {k}: channel {ch} left out a sound whose handle is kept");
                        obs.label("a sound held elsewhere is left out");
                        Some(*hi)
                    }
                    _ => None,
                };
                for j in 0..n {
                    let (mut sum, mut size) = (0.0f64, 0.0f64);
                    for (_, e) in all[*ch].iter().enumerate().filter(|(i, e)| e.inside && Some(*i) != skipped) {
                        let v = nth(e.seed, e.n + j as u64) as f64;
                        sum += v;
                        size += v.abs();
                    }
                    let unit = SF::from_sample(1.0).parts()[0] as f64;
                    for (p, y) in out[j].parts().iter().enumerate() {
                        let want = sum * unit * g;
                        ensure!(
                            (*y as f64 - want).abs() <= tol * size * g.abs() + 1e-30,
                            "op {k}: channel {ch}, sample {j} of {n}, component {p}: {y:?}, expected {want:?} from {} sounds",
                            all[*ch].iter().filter(|e| e.inside).count()
                        );
                        obs.compared += 1;
                    }
                }
                // A sound may have been moved: count by its latest entry.
                for (cc, v) in all.iter_mut().enumerate() {
                    for (i, e) in v.iter_mut().enumerate() {
                        let d = e.rec.borrow().processed - counts[cc][i];
                        if cc == *ch && e.inside && Some(i) != skipped {
                            ensure!(d == n as u64, "op {k}: sound {i} of channel {cc} was processed {d} times for {n} samples");
                            e.n += n as u64;
                        }
                    }
                }
                // those that are nowhere inside channel ch were not processed
                for (cc, v) in all.iter().enumerate() {
                    for (i, e) in v.iter().enumerate() {
                        let inside = all[*ch].iter().any(|x| x.inside && Rc::ptr_eq(&x.rec, &e.rec));
                        if !inside {
                            let d = e.rec.borrow().processed - counts[cc][i];
                            ensure!(d == 0, "op {k}: processing channel {ch} processed sound {i} of channel {cc} {d} times");
                        }
                    }
                }
                let inside = all[*ch].iter().filter(|e| e.inside).count();
                mixed = mixed.max(inside);
                for e in all[*ch].iter().filter(|e| e.inside) {
                    ensure!(e.rec.borrow().toggled == 0, "op {k}: the channel paused or muted a sound");
                }
            }
        }
        for v in &all {
            for e in v.iter().filter(|e| e.inside) {
                obs.compared += 1;
                let r = e.rec.borrow();
                ensure!(
                    r.registered.last() == Some(&e.id) && r.unregistered == e.unregistered,
                    "op {k}: the sound added as {} was registered as {:?} and unregistered {} times",
                    e.id,
                    r.registered,
                    r.unregistered
                );
            }
        }
    }
    obs.label_if(removed > 0, "with removals");
    obs.label_if(mixed > 1, "several sounds at once");
    obs.label_if(chans.len() > 1, "several channels");
    obs.nontrivial = blocks > 0 && seeds > 1;
    Ok(())
}

fn run(c: &Case, obs: &mut Obs) -> Res {
    if c.stereo {
        run_in::<Stereo>(c, obs)
    } else {
        run_in::<Mono>(c, obs)
    }
}

/// BAE's own sounds in a channel against twins processed directly.
#[derive(Debug)]
struct Own {
    stereo: bool,
    gain: f64,
    sounds: Vec<(Spec, Vec<Spec>, f64, bool)>,
    times: Vec<u64>,
}

fn gen_own(s: &mut Src) -> Own {
    let m = |s: &mut Src| loop {
        let m = mod_spec(s, 40);
        if !matches!(m, Spec::Generic(..)) || s.log.len() > 4000 {
            return m;
        }
    };
    Own {
        stereo: s.chance(1, 2),
        gain: chan_gain(s),
        sounds: s.list(1, 5, |s| (gen_spec(s, 60), s.list(0, 2, m), chan_gain(s), s.chance(1, 8))),
        times: s.list(1, 6, |s| time(s, 200)),
    }
}

fn own_sound(c: &(Spec, Vec<Spec>, f64, bool)) -> SimpleSound {
    let mut x = SimpleSound::new(1.0, c.2, Arc::new(StandardBlock::from_generator(c.0.build())));
    for m in &c.1 {
        x.add_modifier::<()>(Arc::new(StandardBlock::from_modifier(m.build())));
    }
    if c.3 {
        x.toggle_mute();
    }
    x
}

fn run_own_in<SF: Parts + 'static>(c: &Own, obs: &mut Obs) -> Res {
    let mut ch: StandardChannel<SF> = StandardChannel::new(c.gain);
    let mut twins: Vec<SimpleSound> = Vec::new();
    for s in &c.sounds {
        let mut h: Handle = Arc::new(own_sound(s));
        ch.add_sound(&mut h);
        twins.push(own_sound(s));
    }
    let g = c.gain as f32 as f64;
    let unit = SF::from_sample(1.0).parts()[0] as f64;
    for (k, t) in c.times.iter().enumerate() {
        ch.set_process_time(Duration::from_nanos(*t));
        ch.process();
        let n = samples(*t);
        let out = ch.get_output();
        ensure!(out.len() == n, "block {k}: {} samples, its process time is {n} samples", out.len());
        for j in 0..n {
            let v: Vec<f64> = twins.iter_mut().map(|t| t.process(0.0) as f64).collect();
            let sum: f64 = v.iter().sum();
            let size: f64 = v.iter().map(|x| x.abs()).sum();
            if !(size < 1e30) {
                return Ok(());
            }
            for y in out[j].parts().iter() {
                let want = sum * unit * g;
                ensure!(
                    (*y as f64 - want).abs() <= 2e-6 * size * g.abs() + 1e-30,
                    "block {k}, sample {j}: {y:?}, the {} sounds by themselves sum to {want:?}",
                    twins.len()
                );
                obs.compared += 1;
            }
            obs.nontrivial |= sum != 0.0 && g != 0.0;
        }
    }
    Ok(())
}

fn run_own(c: &Own, obs: &mut Obs) -> Res {
    if c.stereo {
        run_own_in::<Stereo>(c, obs)
    } else {
        run_own_in::<Mono>(c, obs)
    }
}

// --------------------------------------------------------------------- findings

fn recorder(seed: u64) -> (Handle, Rc<RefCell<Rec>>) {
    let rec = Rc::new(RefCell::new(Rec::default()));
    (Arc::new(Recorder { seed, n: 0, id: None, rec: rec.clone() }), rec)
}

fn kept_handle() -> Option<String> {
    let mut ch: StandardChannel<Mono> = StandardChannel::new(1.0);
    let (mut h, _) = recorder(3);
    ch.add_sound(&mut h);
    let r = catch(|| ch.process());
    let y = ch.get_output().first().map(|m| m.mono);
    drop(h);
    if r.is_err() {
        // not the recorded finding: left to the generated cases
        None
    } else if y == Some(nth(3, 0)) {
        None
    } else {
        Some(format!("a sound whose handle the caller keeps: {r:?}, first output {y:?}, expected {:?}", nth(3, 0)))
    }
}

fn cloned_channel() -> Option<String> {
    let mut a: StandardChannel<Mono> = StandardChannel::new(1.0);
    let (mut h, _) = recorder(3);
    a.add_sound(&mut h);
    drop(h);
    let mut b = a.clone();
    let r = (catch(|| a.process()), catch(|| b.process()));
    let y = (a.get_output().first().map(|m| m.mono), b.get_output().first().map(|m| m.mono));
    let w = Some(nth(3, 0));
    if r.0.is_ok() && r.1.is_ok() && y.0 == w {
        None
    } else {
        Some(format!("a channel and its clone give {y:?}, expected {w:?}"))
    }
}

fn removed_id() -> Option<String> {
    let mut ch: StandardChannel<Mono> = StandardChannel::new(1.0);
    let (mut h, _) = recorder(3);
    ch.add_sound(&mut h);
    let id = h.get_id().unwrap_or(0);
    ch.remove_sound(id);
    match h.get_id() {
        None => None,
        Some(i) => Some(format!("a sound that was removed from its channel still reports id {i}")),
    }
}

fn added_twice() -> Option<String> {
    let mut ch: StandardChannel<Mono> = StandardChannel::new(1.0);
    let (mut h, _) = recorder(3);
    ch.add_sound(&mut h);
    match catch(|| ch.add_sound(&mut h)) {
        Ok(()) => None,
        Err((l, m)) => Some(format!("adding a sound to which there is another handle panics at {l}: {m}")),
    }
}

pub fn properties() -> Vec<Property> {
    const OWN: &str = "no handle to a sound is kept outside the channel while it is added or processed (Arc::get_mut needs sole ownership)";
    let default = |stereo| Case { stereo, gains: vec![0.5], ops: vec![Op::Add(0), Op::Process(0), Op::Add(0), Op::Process(0), Op::Process(0)], skip_ok: false };
    let steps: Vec<Case> = (0..2000u64)
        .map(|k| {
            let t = (k as u128 * 1_000_000_000 / 48_000) as u64;
            Case {
                stereo: false,
                gains: vec![1.0],
                ops: vec![Op::Add(0), Op::Time(0, t), Op::Process(0), Op::Time(0, t + 1), Op::Process(0)],
                skip_ok: false,
            }
        })
        .chain([default(false), default(true)])
        .collect();
    vec![
        Property {
            id: "C31",
            rule: "A case is one or two mono or stereo channels and a history of sounds added, kept, moved and removed, gains, process times (to the nanosecond around whole samples, up to seconds) and processing, with recording sounds whose integer samples identify sound and position; or BAE's own sounds against twins; or up to some 300 sounds at once. Non-trivial: several sounds and a block processed (own sounds: an output other than 0).",
            assumptions: &[OWN],
            subs: vec![
                Sub::new("mix", 160_000, 3_200_000, gen_mix, run).with_cases(steps, run),
                Sub::new("own_sounds", 160_000, 3_200_000, gen_own, run_own),
                Sub::new("long", 96, 1_920, gen_long, run),
                Sub::new("huge", 8, 160, gen_huge, run).threads(4),
                Sub::new("crowd", 800, 16_000, gen_crowd, run),
                Sub::new("many_calls", 160, 3_200, gen_many, run),
                Sub::new("rests", 96, 1_920, super::rests::gen_channel, super::rests::run_channel),
            ],
            probes: vec![
                Probe { key: "kept-handle", run: kept_handle },
                Probe { key: "cloned-channel", run: cloned_channel },
            ],
        },
        Property {
            id: "C32",
            rule: "A case is one to three channels and a history of sounds added, kept, moved, removed (again, or by unknown ids) and processing, compared with a registration model, the mix showing which sounds are in; or up to 140,000 sounds that come and go. Non-trivial: several sounds and a block processed.",
            assumptions: &[OWN],
            subs: vec![
                Sub::new("registration", 960_000, 19_200_000, gen_ids, run),
                Sub::new("churn", 120, 2_400, gen_churn, run_churn),
            ],
            probes: vec![Probe { key: "removed-id", run: removed_id }, Probe { key: "added-twice", run: added_twice }],
        },
    ]
}
