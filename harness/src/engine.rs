//! Property-based testing engine.
//!
//! Every case is decoded from a sequence of integer choices (`Src`), so a case
//! is reproduced by its choices and shrunk by simplifying them. All randomness
//! of a run is a function of the seed, the property, the sub-check and the
//! case index; neither the number of threads nor timing has any influence on
//! which case is reported.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::{Debug, Write as _};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::Command;
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

/// Small generator (xorshift64* seeded by splitmix), also used to render noise
/// signals from a seed that is itself a choice.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed) | 1)
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.0 = x;
        mix(x)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

// -------------------------------------------------------------- choice source

pub struct Src<'a> {
    rng: Rng,
    replay: Option<&'a [u64]>,
    pub log: Vec<u64>,
}

impl<'a> Src<'a> {
    pub fn random(seed: u64) -> Src<'static> {
        Src { rng: Rng::new(seed), replay: None, log: Vec::new() }
    }
    pub fn replay(choices: &'a [u64]) -> Src<'a> {
        Src { rng: Rng::new(0), replay: Some(choices), log: Vec::new() }
    }

    /// An integer in 0..n, simplest is 0.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match self.replay {
            None => {
                if n == 1 {
                    0
                } else {
                    self.rng.next() % n
                }
            }
            Some(c) => c.get(self.log.len()).copied().unwrap_or(0).min(n - 1),
        };
        self.log.push(v);
        v
    }

    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo) as u64 + 1) as i64
    }

    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo) as u64 + 1) as usize
    }

    /// True with probability num/den, simplest is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize].clone()
    }

    /// In [0, 1), simplest is 0.
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 53) as f64 / (1u64 << 53) as f64
    }

    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        lo + self.unit() * (hi - lo)
    }

    /// Log-uniform in [lo, hi).
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 {
        (lo.ln() + self.unit() * (hi.ln() - lo.ln())).exp().max(lo).min(hi)
    }

    pub fn u64(&mut self) -> u64 {
        (self.below(1 << 32) << 32) | self.below(1 << 32)
    }

    /// A size in 0..=max, mostly small but with every scale represented.
    pub fn size(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        match self.below(8) {
            0..=2 => self.us(0, max.min(4)),
            3..=4 => self.us(0, max.min(24)),
            5..=6 => self.logu(1.0, max as f64 + 1.0) as usize,
            _ => self.us(0, max),
        }
        .min(max)
    }

    /// A list whose elements are individually preceded by a "one more" choice,
    /// so that the shrinker can delete any of them.
    pub fn list<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let span = (max - min) as u64;
        let avg = match self.below(4) {
            0 => 2.min(span),
            1 => 6.min(span),
            2 => (span / 4).max(1),
            _ => (span / 2).max(1),
        }
        .max(1);
        let mut v = Vec::new();
        while v.len() < max {
            if v.len() >= min {
                // continue with probability avg / (avg + 1)
                let d = 1u64 << 16;
                if self.below(d) < d / (avg + 1) {
                    break;
                }
            }
            v.push(f(self));
        }
        v
    }
}

// ----------------------------------------------------------------- observation

#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    /// Elementary comparisons made against the oracle.
    pub compared: u64,
    /// Inputs excluded by construction because of a known finding.
    pub excluded: u64,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

// ---------------------------------------------------------------------- checks

pub enum Outcome {
    Pass,
    Fail(String),
    /// The harness itself is at fault.
    Broken(String),
}

type RunFn = Box<dyn Fn(&mut Src, &mut Obs, Option<&mut String>, &mut u64) -> Outcome + Sync + Send>;
type FixedFn = Box<dyn Fn(usize, &mut Obs, Option<&mut String>) -> Outcome + Sync + Send>;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    run: RunFn,
    fixed_n: usize,
    fixed: FixedFn,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CATCHING: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    let default = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        if !CATCHING.with(|c| c.get()) {
            default(info);
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs `f`, turning a panic into its location and message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    let before = CATCHING.with(|c| c.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(before));
    r.map_err(|_| {
        LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| ("?".into(), "?".into()))
    })
}

/// Runs `f` on a thread of its own, so that nothing kept per thread reaches it
/// or stays behind.
pub fn isolated<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, (String, String)> {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(sc, || catch(f))
            .expect("thread")
            .join()
            .unwrap_or_else(|_| Err(("?".into(), "?".into())))
    })
}

/// A panic located in the harness is the harness's fault, anything else is the
/// code's (bae_rs and its dependencies are compiled with other paths).
fn own(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/src")
}

fn judge(r: Result<Res, (String, String)>) -> Outcome {
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err((loc, msg)) => {
            if own(&loc) {
                Outcome::Broken(format!("harness panicked at {loc}: {msg}"))
            } else {
                Outcome::Fail(format!("panicked at {loc}: {msg}"))
            }
        }
    }
}

struct HashFmt(u64);
impl std::fmt::Write for HashFmt {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        Ok(())
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    }
}

impl Sub {
    pub fn new<C: Debug + 'static>(
        name: &'static str,
        quick: u64,
        thorough: u64,
        gen: fn(&mut Src) -> C,
        run: fn(&C, &mut Obs) -> Res,
    ) -> Sub {
        Sub {
            name,
            quick,
            thorough,
            threads: 8,
            run: Box::new(move |src, obs, show, hash| {
                let case = match catch(|| gen(src)) {
                    Ok(c) => c,
                    // Generators build inputs only.
                    Err((l, m)) => return Outcome::Broken(format!("generator panicked at {l}: {m}")),
                };
                let mut h = HashFmt(0xcbf2_9ce4_8422_2325);
                let _ = write!(h, "{case:?}");
                *hash = mix(h.0);
                if let Some(s) = show {
                    *s = format!("{case:?}");
                }
                judge(catch(|| run(&case, obs)))
            }),
            fixed_n: 0,
            fixed: Box::new(|_, _, _| Outcome::Pass),
        }
    }

    /// Explicit cases run before the generated ones.
    pub fn with_cases<C: Debug + Send + Sync + 'static>(
        mut self,
        cases: Vec<C>,
        run: fn(&C, &mut Obs) -> Res,
    ) -> Sub {
        self.fixed_n = cases.len();
        self.fixed = Box::new(move |i, obs, show| {
            if let Some(s) = show {
                *s = format!("{:?}", cases[i]);
            }
            judge(catch(|| run(&cases[i], obs)))
        });
        self
    }

    pub fn threads(mut self, n: usize) -> Sub {
        self.threads = n;
        self
    }
}

/// A deterministic demonstration of a recorded finding.
pub struct Probe {
    pub key: &'static str,
    pub run: fn() -> Option<String>,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    pub probes: Vec<Probe>,
}

pub struct Cfg {
    pub seed: u64,
    pub tier: String,
    pub scale: f64,
    pub out: String,
    pub known: String,
    pub only: Option<String>,
}

#[derive(Default)]
struct Tot {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    compared: u64,
    excluded: u64,
    samples: Vec<(u64, String)>,
}

fn case_seed(cfg: &Cfg, prop: &str, sub: &str, i: u64) -> u64 {
    mix(mix(cfg.seed ^ hash_str(prop)) ^ hash_str(sub) ^ mix(i))
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known_lines(path: &str, id: &str) -> Vec<(String, String)> {
    // KNOWN-FINDING: property=<id> key=<key> <text>
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("KNOWN-FINDING: property=") {
                let mut it = r.splitn(3, ' ');
                if it.next() == Some(id) {
                    if let Some(k) = it.next().and_then(|k| k.strip_prefix("key=")) {
                        v.push((k.to_string(), it.next().unwrap_or("").to_string()));
                    }
                }
            }
        }
    }
    v
}

thread_local! {
    static KNOWN: RefCell<HashSet<String>> = RefCell::new(HashSet::new());
}
static KNOWN_ALL: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// Is this exact signature listed in the known-findings file for the property
/// being checked?
pub fn is_known(key: &str) -> bool {
    KNOWN.with(|k| {
        if k.borrow().is_empty() {
            k.borrow_mut().extend(KNOWN_ALL.lock().unwrap().iter().cloned());
            k.borrow_mut().insert(String::new());
        }
        k.borrow().contains(key)
    })
}

/// Exit status: 0 held, 1 violated, 2 error of the check.
pub fn run_property(p: &Property, cfg: &Cfg) -> i32 {
    let t0 = Instant::now();
    let known = known_lines(&cfg.known, p.id);
    *KNOWN_ALL.lock().unwrap() = known.iter().map(|k| k.0.clone()).collect();

    let mut violations: Vec<(String, String)> = Vec::new(); // (replay path, message)
    let mut broken: Option<String> = None;
    let mut tot = Tot::default();
    let mut per_sub = String::new();
    let mut findings = 0;

    for pr in &p.probes {
        tot.evals += 1;
        match catch(pr.run) {
            Ok(Some(what)) => {
                if let Some((_, text)) = known.iter().find(|k| k.0 == pr.key) {
                    println!("KNOWN-FINDING: property={} key={} {}", p.id, pr.key, text);
                    findings += 1;
                } else {
                    let path = write_replay(cfg, p.id, "probe", &format!("probe {}", pr.key), "", &what);
                    violations.push((path, what));
                }
            }
            Ok(None) => {}
            Err((l, m)) => broken = Some(format!("probe {} panicked at {l}: {m}", pr.key)),
        }
    }

    for sub in &p.subs {
        if let Some(o) = &cfg.only {
            if o != sub.name {
                continue;
            }
        }
        if !violations.is_empty() {
            break;
        }
        let n = if cfg.tier == "thorough" { sub.thorough } else { sub.quick };
        let n = ((n as f64 * cfg.scale).ceil() as u64).max(1);
        let next = AtomicU64::new(0);
        let best = Mutex::new(None::<(u64, Vec<u64>, String)>);
        let lowest = AtomicU64::new(u64::MAX);
        let oops = Mutex::new(None::<String>);
        let totals = Mutex::new(Tot::default());
        let total = sub.fixed_n as u64 + n;
        let ts = Instant::now();
        std::thread::scope(|sc| {
            for _ in 0..sub.threads.min(total as usize).max(1) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || {
                        let mut t = Tot::default();
                        let mut trace = Trace::new();
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= total || i > lowest.load(Ordering::SeqCst) {
                                break;
                            }
                            trace.case(sub.name, i);
                            let mut obs = Obs::default();
                            let mut show = String::new();
                            let want = i < 4 || i == total / 2;
                            let mut hash = i.wrapping_mul(0x9E37_79B9_7F4A_7C15);
                            let (out, log) = if i < sub.fixed_n as u64 {
                                obs.nontrivial = true;
                                ((sub.fixed)(i as usize, &mut obs, Some(&mut show)), Vec::new())
                            } else {
                                let mut src = Src::random(case_seed(cfg, p.id, sub.name, i - sub.fixed_n as u64));
                                let o = (sub.run)(&mut src, &mut obs, if want { Some(&mut show) } else { None }, &mut hash);
                                (o, src.log)
                            };
                            t.evals += 1;
                            t.compared += obs.compared;
                            t.excluded += obs.excluded;
                            for (l, c) in &obs.labels {
                                *t.labels.entry(l).or_insert(0) += c;
                            }
                            if obs.nontrivial {
                                t.nontrivial.insert(hash);
                            }
                            if want && obs.nontrivial {
                                t.samples.push((i, clip(&show, 600)));
                            }
                            match out {
                                Outcome::Pass => {}
                                Outcome::Broken(m) => {
                                    *oops.lock().unwrap() = Some(format!("{} case {i}: {m}", sub.name));
                                    lowest.fetch_min(i, Ordering::SeqCst);
                                    break;
                                }
                                Outcome::Fail(m) => {
                                    let mut b = best.lock().unwrap();
                                    if b.as_ref().map_or(true, |b| i < b.0) {
                                        *b = Some((i, log, m));
                                    }
                                    lowest.fetch_min(i, Ordering::SeqCst);
                                    break;
                                }
                            }
                        }
                        trace.done();
                        let mut g = totals.lock().unwrap();
                        g.evals += t.evals;
                        g.compared += t.compared;
                        g.excluded += t.excluded;
                        g.nontrivial.extend(t.nontrivial);
                        for (l, c) in t.labels {
                            *g.labels.entry(l).or_insert(0) += c;
                        }
                        g.samples.extend(t.samples);
                    })
                    .expect("thread");
            }
        });
        let t = totals.into_inner().unwrap();
        eprintln!(
            "{} {:<24} {:>9} cases {:>9} distinct non-trivial {:>12} comparisons  {:.1}s",
            p.id, sub.name, t.evals, t.nontrivial.len(), t.compared, ts.elapsed().as_secs_f64()
        );
        let _ = write!(
            per_sub,
            "{}{}: {{\"cases\": {}, \"distinct_nontrivial\": {}, \"comparisons\": {}}}",
            if per_sub.is_empty() { "" } else { ", " },
            json_str(sub.name), t.evals, t.nontrivial.len(), t.compared
        );
        tot.evals += t.evals;
        tot.compared += t.compared;
        tot.excluded += t.excluded;
        let salt = hash_str(sub.name);
        tot.nontrivial.extend(t.nontrivial.iter().map(|h| h ^ salt));
        for (l, c) in t.labels {
            *tot.labels.entry(l).or_insert(0) += c;
        }
        let mut s = t.samples;
        s.sort();
        for (_, s) in s.into_iter().take(2) {
            tot.samples.push((0, format!("{}: {}", sub.name, s)));
        }
        if let Some(m) = oops.into_inner().unwrap() {
            broken = Some(m);
        }
        if let Some((i, log, first)) = best.into_inner().unwrap() {
            // Should shrinking hang or crash, this is what gets reported.
            let raw = format!("choices {}", log.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
            let raw = if i < sub.fixed_n as u64 { format!("fixed {i}") } else { raw };
            let path = write_replay(cfg, p.id, sub.name, &raw, "", "(not shrunk)");
            fallback(&path);
            let (choices, fixed) = if i < sub.fixed_n as u64 {
                (format!("fixed {i}"), true)
            } else {
                let s = shrink(sub, log);
                (s.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "), false)
            };
            let (show, msg) = describe(sub, &choices, fixed);
            let msg = msg.unwrap_or(format!("{first} (after the cases before it; it did not fail again on its own)"));
            let head = if fixed { choices.clone() } else { format!("choices {choices}") };
            let path = write_replay(cfg, p.id, sub.name, &head, &show, &msg);
            violations.push((path, format!("[{}] {}\n  case: {}", sub.name, msg, clip(&show, 1500))));
        }
    }

    let samples: Vec<String> = tot.samples.iter().map(|s| json_str(&s.1)).collect();
    let labels: Vec<String> = tot.labels.iter().map(|(l, c)| format!("{}: {}", json_str(l), c)).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    let ev = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"oracle_comparisons\": {},\n  \"excluded_known_findings\": {},\n  \"known_findings_reproduced\": {},\n  \"labels\": {{{}}},\n  \"sub_checks\": {{{}}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        p.id, cfg.tier, cfg.seed as i64, tot.evals, tot.nontrivial.len(), json_str(p.rule),
        samples.join(", "), tot.compared, tot.excluded, findings, labels.join(", "), per_sub,
        assumptions.join(", "), t0.elapsed().as_secs_f64(), violations.len()
    );
    let dir = format!("{}/evidence", cfg.out);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", p.id), ev) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    if let Some((path, msg)) = violations.first() {
        println!("{msg}");
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    if let Some(b) = broken {
        eprintln!("ERROR {}: {b}", p.id);
        return 2;
    }
    println!("OK property={} {} cases, {} distinct non-trivial, {:.1}s", p.id, tot.evals, tot.nontrivial.len(), t0.elapsed().as_secs_f64());
    0
}

// ------------------------------------------------------------------ supervision

/// Where the workers note the cases they are on, in a file each, so that a
/// case that hangs or kills the process is known.
struct Trace(Option<std::fs::File>, usize);

static SLOTS: Mutex<Vec<Option<Instant>>> = Mutex::new(Vec::new());

impl Trace {
    fn new() -> Trace {
        let mut s = SLOTS.lock().unwrap();
        s.push(None);
        let n = s.len() - 1;
        let f = std::env::var("VERIF_TRACE").ok().and_then(|d| std::fs::File::create(format!("{d}/t{n}")).ok());
        Trace(f, n)
    }
    fn note(&self, sub: &str, i: u64) {
        if let Some(f) = &self.0 {
            let _ = f.write_at(format!("{sub} {i:<24}\n").as_bytes(), 0);
        }
    }
    fn case(&mut self, sub: &str, i: u64) {
        self.note(sub, i);
        SLOTS.lock().unwrap()[self.1] = Some(Instant::now());
    }
    fn done(&mut self) {
        if let Some(f) = &self.0 {
            let _ = f.set_len(0);
        }
        SLOTS.lock().unwrap()[self.1] = None;
    }
}

fn fallback(path: &str) {
    if let Ok(d) = std::env::var("VERIF_TRACE") {
        let _ = std::fs::write(format!("{d}/fallback"), path);
    }
    let mut s = SLOTS.lock().unwrap();
    s.push(Some(Instant::now() + Duration::from_secs(60)));
}

const STUCK: i32 = 3;

/// Ends the process when one case has been running for far longer than any
/// does.
pub fn watchdog(limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = SLOTS.lock().unwrap();
        if s.iter().flatten().any(|t| t.elapsed() > limit) {
            std::process::exit(STUCK);
        }
    });
}

/// Runs the check in a child process and turns a crash or a hang that a case
/// shows again on its own into a violation.
pub fn supervise(p: &Property, cfg: &Cfg, limit: Duration) -> i32 {
    let dir = std::env::temp_dir().join(format!("bae-check-{}-{}", p.id, std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&dir) {
        eprintln!("ERROR {}: {e}", dir.display());
        return 2;
    }
    let code = supervised(p, cfg, limit, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn supervised(p: &Property, cfg: &Cfg, limit: Duration, dir: &std::path::Path) -> i32 {
    let me = match std::env::current_exe() {
        Ok(m) => m,
        Err(e) => {
            eprintln!("ERROR {e}");
            return 2;
        }
    };
    let st = Command::new(&me).args([p.id, &cfg.tier]).env("VERIF_TRACE", dir).status();
    let st = match st {
        Ok(st) => st,
        Err(e) => {
            eprintln!("ERROR {e}");
            return 2;
        }
    };
    let died = match (st.code(), st.signal()) {
        (Some(STUCK), _) => "it does not return".to_string(),
        (Some(c), _) => return c,
        (None, s) => format!("it ends the process with signal {}", s.unwrap_or(0)),
    };
    if let Ok(path) = std::fs::read_to_string(dir.join("fallback")) {
        println!("(while shrinking, {died})");
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    // Which of the cases under way does it again?
    let mut cases: Vec<(String, u64)> = std::fs::read_dir(dir)
        .into_iter()
        .flatten()
        .flatten()
        .filter_map(|e| std::fs::read_to_string(e.path()).ok())
        .filter_map(|s| {
            let (a, b) = s.trim().split_once(' ')?;
            Some((a.to_string(), b.trim().parse().ok()?))
        })
        .collect();
    cases.sort();
    let mut paths = Vec::new();
    for (name, i) in &cases {
        if let Some(sub) = p.subs.iter().find(|s| s.name == name) {
            let head = match i.checked_sub(sub.fixed_n as u64) {
                None => format!("fixed {i}"),
                Some(k) => format!("seed {}", case_seed(cfg, p.id, sub.name, k)),
            };
            let path = write_replay(cfg, p.id, &format!("{}-{i}", sub.name), &head, "", &died);
            // the sub-check's name, not the file's
            let text = std::fs::read_to_string(&path).unwrap_or_default();
            let _ = std::fs::write(&path, text.replace(&format!("sub {}-{i}\n", sub.name), &format!("sub {}\n", sub.name)));
            paths.push(path);
        }
    }
    let mut kids: Vec<_> = paths.iter().map(|f| Command::new(&me).args(["replay", f]).spawn()).collect();
    let t0 = Instant::now();
    let mut bad = None;
    while t0.elapsed() < limit && bad.is_none() {
        let mut running = false;
        for (k, kid) in kids.iter_mut().enumerate() {
            if let Ok(kid) = kid {
                match kid.try_wait() {
                    Ok(None) => running = true,
                    Ok(Some(st)) if st.code().is_none() || st.code() == Some(1) => bad = Some(k),
                    _ => {}
                }
            }
        }
        if !running {
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    for (k, kid) in kids.iter_mut().enumerate() {
        if let Ok(kid) = kid {
            if let Ok(None) = kid.try_wait() {
                bad = bad.or(Some(k));
            }
            let _ = kid.kill();
            let _ = kid.wait();
        }
    }
    for (k, f) in paths.iter().enumerate() {
        if bad != Some(k) {
            let _ = std::fs::remove_file(f);
        }
    }
    match bad {
        Some(k) => {
            println!("[{}] case {}: {died}", cases[k].0, cases[k].1);
            println!("VIOLATION property={} replay={}", p.id, paths[k]);
            1
        }
        None => {
            eprintln!("ERROR {}: {died}, and no single case shows it again", p.id);
            2
        }
    }
}

fn describe(sub: &Sub, choices: &str, fixed: bool) -> (String, Option<String>) {
    let mut show = String::new();
    let out = isolated(|| {
        let mut obs = Obs::default();
        if fixed {
            let i = choices.trim_start_matches("fixed ").trim().parse().unwrap_or(0);
            (sub.fixed)(i, &mut obs, Some(&mut show))
        } else {
            let c = parse_choices(choices);
            (sub.run)(&mut Src::replay(&c), &mut obs, Some(&mut show), &mut 0)
        }
    });
    match out {
        Ok(Outcome::Fail(m) | Outcome::Broken(m)) => (show, Some(m)),
        Ok(Outcome::Pass) => (show, None),
        Err((l, m)) => (show, Some(format!("panicked at {l}: {m}"))),
    }
}

fn parse_choices(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

fn write_replay(cfg: &Cfg, id: &str, sub: &str, head: &str, show: &str, msg: &str) -> String {
    let dir = format!("{}/replays", cfg.out);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{sub}.replay");
    let _ = std::fs::write(
        &path,
        format!("property {id}\nsub {sub}\n{head}\n\n# case: {}\n# failure: {}\n", show.replace('\n', " "), msg.replace('\n', " ")),
    );
    path
}

/// Runs a replay file; exit status as for a check.
pub fn replay(props: &[Property], file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let id = get("property ");
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {id}");
            return 2;
        }
    };
    let probe = get("probe ");
    let out = if !probe.is_empty() {
        match p.probes.iter().find(|q| q.key == probe).map(|q| (q.run)()) {
            Some(Some(m)) => Outcome::Fail(m),
            _ => Outcome::Pass,
        }
    } else {
        let sub = match p.subs.iter().find(|x| x.name == get("sub ")) {
            Some(x) => x,
            None => {
                eprintln!("no sub-check {}", get("sub "));
                return 2;
            }
        };
        let mut obs = Obs::default();
        let mut show = String::new();
        let fixed = get("fixed ");
        let seed = get("seed ");
        let out = if !seed.is_empty() {
            (sub.run)(&mut Src::random(seed.parse().unwrap_or(0)), &mut obs, Some(&mut show), &mut 0)
        } else if !fixed.is_empty() {
            (sub.fixed)(fixed.parse().unwrap_or(0), &mut obs, Some(&mut show))
        } else {
            let c = parse_choices(&get("choices "));
            (sub.run)(&mut Src::replay(&c), &mut obs, Some(&mut show), &mut 0)
        };
        println!("case: {show}");
        out
    };
    match out {
        Outcome::Pass => {
            println!("OK replay {file} passes");
            0
        }
        Outcome::Fail(m) => {
            println!("{m}\nVIOLATION property={id} replay={file}");
            1
        }
        Outcome::Broken(m) => {
            eprintln!("ERROR {m}");
            2
        }
    }
}

// ------------------------------------------------------------------- shrinking

/// Shrinks a failing choice sequence: fewer choices first, then smaller ones.
fn shrink(sub: &Sub, start: Vec<u64>) -> Vec<u64> {
    let t0 = Instant::now();
    let mut evals = 0u32;
    let limit = 6000;
    let time = Duration::from_secs(60);
    let mut fails = |c: &[u64]| -> Option<Vec<u64>> {
        evals += 1;
        if evals > limit || t0.elapsed() > time {
            return None;
        }
        isolated(|| {
            let mut src = Src::replay(c);
            match (sub.run)(&mut src, &mut Obs::default(), None, &mut 0) {
                Outcome::Fail(_) => Some(src.log),
                _ => None,
            }
        })
        .unwrap_or(None)
    };
    let better = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    let mut cur = match fails(&start) {
        Some(l) => l,
        None => return start,
    };
    loop {
        let before = cur.clone();
        // delete chunks
        let mut size = (cur.len() / 2).max(1).min(256);
        loop {
            let mut i = 0;
            while i + size <= cur.len() {
                let mut c = cur.clone();
                c.drain(i..i + size);
                match fails(&c) {
                    Some(l) if better(&l, &cur) => cur = l,
                    _ => i += size.max(1),
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = 64;
        while size >= 1 {
            let mut i = 0;
            while i < cur.len() {
                let e = (i + size).min(cur.len());
                if cur[i..e].iter().any(|&x| x != 0) {
                    let mut c = cur.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some(l) = fails(&c) {
                        if better(&l, &cur) {
                            cur = l;
                        }
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // minimise single choices
        let mut i = 0;
        while i < cur.len() {
            let mut lo = 0; // assumed passing below
            while i < cur.len() && lo < cur[i] {
                let mid = lo + (cur[i] - lo) / 2;
                let mut c = cur.clone();
                c[i] = mid;
                match fails(&c) {
                    Some(l) if better(&l, &cur) => cur = l,
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if cur == before {
            return cur;
        }
    }
}
