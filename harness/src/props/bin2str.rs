//! C34: the bin2str tool, run as built from /repo in scratch directories.

use crate::engine::*;
use crate::ensure;
use std::io;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(n: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;
const SIG_IGN: usize = 1;

struct Scratch(PathBuf);

impl Scratch {
    fn new() -> io::Result<Scratch> {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var("VERIF_TRACE").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let p = base.join(format!("bin2str-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p)?;
        Ok(Scratch(p))
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn tool() -> PathBuf {
    std::env::var("VERIF_BIN2STR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif/target/bin2str/debug/bin2str"))
}

#[derive(Clone, Copy, Debug)]
struct Limit {
    bytes: u64,
    /// Otherwise the signal ends the tool.
    ignore_signal: bool,
}

fn run_tool(dir: &Path, limit: Option<Limit>) -> io::Result<ExitStatus> {
    let mut c = Command::new(tool());
    c.current_dir(dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    if let Some(l) = limit {
        unsafe {
            c.pre_exec(move || {
                if l.ignore_signal {
                    signal(SIGXFSZ, SIG_IGN);
                }
                setrlimit(RLIMIT_FSIZE, &[l.bytes, l.bytes]);
                // no core file
                setrlimit(4, &[0, 0]);
                Ok(())
            });
        }
    }
    c.status()
}

#[derive(Debug, Clone)]
enum Content {
    Noise(u64, usize),
    Same(u8, usize),
    /// Values with one, two or three digits.
    Digits(u64, usize),
    List(Vec<u8>),
    Parts(Vec<Content>),
}

impl Content {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Content::Noise(s, n) => {
                let mut r = Rng::new(*s);
                (0..*n).map(|_| r.next() as u8).collect()
            }
            Content::Same(b, n) => vec![*b; *n],
            Content::Digits(s, n) => {
                let mut r = Rng::new(*s);
                (0..*n).map(|_| [0u8, 9, 10, 99, 100, 255, 127, 128][(r.next() % 8) as usize]).collect()
            }
            Content::List(v) => v.clone(),
            Content::Parts(v) => v.iter().flat_map(Content::bytes).collect(),
        }
    }
}

/// Beginnings, ends and pieces that tools like to treat in their own way.
fn special(s: &mut Src) -> Vec<u8> {
    let all: [&[u8]; 34] = [
        b"\xEF\xBB\xBF", b"\xFF\xFE", b"\xFE\xFF", b"\x00\x00\xFE\xFF", b"\xFF\xFE\x00\x00", b"#!", b"#!/bin/sh\n", b"RIFF",
        b"RIFF\x24\x00\x00\x00WAVEfmt ", b"RIFX", b"data", b"WAVE", b"LIST", b"ID3", b"OggS", b"fLaC", b"\x1F\x8B",
        b"\x89PNG\r\n\x1A\n", b"PK\x03\x04", b"MZ", b"\x7FELF", b"\r\n", b"\n", b"\r", b"\x1A", b"\x04", b"\x00", b"\xC0\x80",
        b"\xED\xA0\x80", b"\xF0\x9F\x8E\xB5", b"\xFF\xFF\xFF\xFF", b"\"", b"\\", b"];\n//*/",
    ];
    s.pick(&all).to_vec()
}

fn content(s: &mut Src, max: usize) -> Content {
    if s.chance(1, 6) {
        let mut parts = Vec::new();
        for _ in 0..s.us(1, 3) {
            if s.chance(2, 3) {
                parts.push(Content::List(special(s).repeat(s.pick(&[1, 1, 1, 2, 16, 500]))));
            }
            if s.chance(2, 3) {
                parts.push(plain(s, max / 3));
            }
        }
        if s.chance(1, 2) {
            parts.push(Content::List(special(s).repeat(s.pick(&[1, 1, 2, 40]))));
        }
        return Content::Parts(parts);
    }
    plain(s, max)
}

fn plain(s: &mut Src, max: usize) -> Content {
    let n = s.size(max);
    match s.below(5) {
        0 => Content::Noise(s.below(1 << 32), n),
        1 => Content::Same(s.pick(&[0, 1, 9, 10, 32, 99, 100, 200, 255]), n),
        2 => Content::Digits(s.below(1 << 32), n),
        3 => Content::List(s.list(0, 120, |s| s.below(256) as u8)),
        _ => Content::Noise(s.below(1 << 32), s.us(0, 60)),
    }
}

/// `pub static NAME: [u8; N] = [ ... ];` and nothing else, in plain decimal.
/// What this does not accept is left for the compiler to judge.
fn parse(text: &str) -> Option<Vec<u8>> {
    let t = text.trim();
    let t = t.strip_prefix("pub ").unwrap_or(t).trim_start();
    let t = t.strip_prefix("static ")?;
    let (name, t) = t.split_once(':')?;
    let name = name.trim();
    if name.is_empty() || !name.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') || name.as_bytes()[0].is_ascii_digit() {
        return None;
    }
    let t = t.trim_start().strip_prefix('[')?.trim_start().strip_prefix("u8")?.trim_start().strip_prefix(';')?;
    let (len, t) = t.split_once(']')?;
    let number = |s: &str| -> Option<usize> {
        let s = s.trim();
        if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        s.parse().ok()
    };
    let len = number(len)?;
    let t = t.trim_start().strip_prefix('=')?.trim_start().strip_prefix('[')?;
    let (items, t) = t.split_once(']')?;
    if t.trim() != ";" {
        return None;
    }
    let items = items.trim();
    let mut v = Vec::new();
    if !items.is_empty() {
        for x in items.strip_suffix(',').unwrap_or(items).split(',') {
            v.push(number(x).filter(|n| *n < 256)? as u8);
        }
    }
    (v.len() == len).then_some(v)
}

/// Does the file compile and hold `bytes`?
fn compiles(dir: &Path, output: &str, bytes: &[u8]) -> Res {
    let name = match output.split("static ").nth(1).and_then(|s| s.split(':').next()) {
        Some(n) => n.trim().to_string(),
        None => return Err(format!("output.rs declares no static: {:?}", clip(output, 200))),
    };
    let sub = dir.join("compile");
    let r = (|| -> io::Result<Res> {
        std::fs::create_dir_all(&sub)?;
        std::fs::write(sub.join("table.rs"), output)?;
        std::fs::write(sub.join("bytes"), bytes)?;
        std::fs::write(
            sub.join("main.rs"),
            format!("mod t {{ include!(\"table.rs\"); }}\nfn main() {{ let a: &[u8] = &t::{name}[..]; assert!(a == &include_bytes!(\"bytes\")[..]); }}\n"),
        )?;
        let c = Command::new("rustc")
            .current_dir(&sub)
            .args(["--edition", "2018", "-A", "warnings", "-C", "debuginfo=0", "-o", "main", "main.rs"])
            .stdin(Stdio::null())
            .output()?;
        if !c.status.success() {
            let e = String::from_utf8_lossy(&c.stderr).to_string();
            return Ok(Err(format!("output.rs does not compile: {}", clip(&e, 400))));
        }
        let st = Command::new(sub.join("main")).current_dir(&sub).stdin(Stdio::null()).stderr(Stdio::null()).status()?;
        Ok(if st.success() { Ok(()) } else { Err("output.rs holds other bytes than input.wav".into()) })
    })();
    r.expect("running rustc")
}

fn holds(dir: &Path, bytes: &[u8], always_compile: bool) -> Res {
    let out = match std::fs::read(dir.join("output.rs")) {
        Ok(o) => o,
        Err(e) => return Err(format!("no output.rs: {e}")),
    };
    let text = match String::from_utf8(out) {
        Ok(t) => t,
        Err(_) => return Err("output.rs is not text".into()),
    };
    match parse(&text) {
        Some(v) => {
            if let Some(i) = (0..v.len().max(bytes.len())).find(|&i| v.get(i) != bytes.get(i)) {
                return Err(format!("{} bytes in, {} out, byte {i}: {:?} became {:?}", bytes.len(), v.len(), bytes.get(i), v.get(i)));
            }
            if always_compile {
                compiles(dir, &text, bytes)?;
            }
            Ok(())
        }
        None => compiles(dir, &text, bytes),
    }
}

#[derive(Debug)]
struct Case {
    content: Content,
    /// Inputs converted before in the same directory.
    before: Vec<Content>,
    previous: Option<Content>,
    limit: Option<Limit>,
}

fn gen(s: &mut Src) -> Case {
    let max = if s.chance(1, 40) { 200_000 } else { 3000 };
    Case {
        content: content(s, max),
        before: if s.chance(1, 8) { s.list(0, 2, |s| content(s, 600)) } else { vec![] },
        previous: if s.chance(1, 2) { Some(content(s, 9000)) } else { None },
        limit: None,
    }
}

fn gen_limit(s: &mut Src) -> Case {
    let mut c = gen(s);
    // the length of the output is about 5 bytes for each of the input
    let n = c.content.bytes().len() as u64;
    let bytes = match s.below(4) {
        0 => s.below(40),
        1 => s.below(n * 6 + 60),
        2 => n * 5 + s.below(40),
        _ => s.below(9000),
    };
    c.limit = Some(Limit { bytes, ignore_signal: s.chance(1, 2) });
    c
}

/// Around powers of two and beyond what a buffer holds.
/// Tens of millions of bytes.
fn gen_huge(s: &mut Src) -> Case {
    let n = (1usize << s.us(22, 25)) + s.us(0, 3_000_000);
    Case { content: Content::Noise(s.below(1 << 32), n), before: vec![], previous: None, limit: None }
}

fn gen_large(s: &mut Src) -> Case {
    let n = match s.below(4) {
        0 => (1usize << s.us(16, 21)) + s.us(0, 2) - 1,
        1 => s.us(200_000, 1_200_000),
        2 => 1_000_000 + s.us(0, 60),
        _ => s.us(60_000, 300_000),
    };
    let content = match s.below(3) {
        0 => Content::Same(s.pick(&[0, 9, 10, 100, 255]), n),
        1 => Content::Digits(s.below(1 << 32), n),
        _ => Content::Noise(s.below(1 << 32), n),
    };
    Case { content, before: vec![], previous: None, limit: None }
}

fn gen_compile(s: &mut Src) -> Case {
    Case { content: content(s, 2500), before: vec![], previous: None, limit: None }
}

fn run_any(c: &Case, obs: &mut Obs, compile: bool) -> Res {
    let d = Scratch::new().expect("scratch directory");
    let put = |name: &str, b: &[u8]| std::fs::write(d.0.join(name), b).expect("scratch file");
    if let Some(p) = &c.previous {
        put("output.rs", &p.bytes());
    }
    for b in c.before.iter() {
        let bytes = b.bytes();
        put("input.wav", &bytes);
        let st = run_tool(&d.0, None).expect("running bin2str");
        ensure!(st.success(), "failed on {} bytes: {st}", bytes.len());
        holds(&d.0, &bytes, false)?;
    }
    let bytes = c.content.bytes();
    put("input.wav", &bytes);
    let st = run_tool(&d.0, c.limit).expect("running bin2str");
    obs.compared += bytes.len() as u64 + 1;
    match c.limit {
        None => {
            ensure!(st.success(), "failed on {} bytes: {st}", bytes.len());
            obs.nontrivial = !bytes.is_empty();
            obs.label_if(bytes.is_empty(), "empty");
            obs.label_if(bytes.len() > 100_000, "over 100 kB");
            obs.label_if(bytes.len() > 1_000_000, "over 1 MB");
            obs.label_if(c.previous.is_some() || !c.before.is_empty(), "replaces an output");
            holds(&d.0, &bytes, compile)?;
        }
        Some(l) => {
            if st.success() {
                obs.label("the limit was not reached");
                holds(&d.0, &bytes, compile).map_err(|e| format!("succeeded with files limited to {} bytes, but {e}", l.bytes))?;
            } else {
                obs.label("failed at the limit");
                obs.nontrivial = true;
                ensure!(l.bytes < bytes.len() as u64 * 10 + 4000, "failed with files limited to {} bytes for {} bytes of input", l.bytes, bytes.len());
            }
        }
    }
    // the input is left as it was
    ensure!(std::fs::read(d.0.join("input.wav")).ok().as_deref() == Some(&bytes[..]), "input.wav was changed");
    Ok(())
}

fn run(c: &Case, obs: &mut Obs) -> Res {
    run_any(c, obs, false)
}

fn run_compile(c: &Case, obs: &mut Obs) -> Res {
    run_any(c, obs, true)
}

#[derive(Debug)]
struct Missing {
    previous: Option<Content>,
    input_is_directory: bool,
    output_is_directory: bool,
    content: Content,
}

fn gen_missing(s: &mut Src) -> Missing {
    let which = s.below(3);
    Missing {
        previous: if s.chance(2, 3) { Some(content(s, 4000)) } else { None },
        input_is_directory: which == 1,
        output_is_directory: which == 2,
        content: content(s, 500),
    }
}

fn run_missing(c: &Missing, obs: &mut Obs) -> Res {
    let d = Scratch::new().expect("scratch directory");
    let out = d.0.join("output.rs");
    if c.output_is_directory {
        std::fs::create_dir(&out).expect("scratch directory");
        std::fs::write(d.0.join("input.wav"), c.content.bytes()).expect("scratch file");
    } else {
        if let Some(p) = &c.previous {
            std::fs::write(&out, p.bytes()).expect("scratch file");
        }
        if c.input_is_directory {
            std::fs::create_dir(d.0.join("input.wav")).expect("scratch directory");
        }
    }
    let st = run_tool(&d.0, None).expect("running bin2str");
    obs.compared += 1;
    obs.nontrivial = true;
    if c.output_is_directory {
        obs.label("output cannot be written");
        ensure!(!st.success(), "succeeded although output.rs cannot be written");
        return Ok(());
    }
    obs.label("no input");
    ensure!(!st.success(), "succeeded without input.wav (a directory: {})", c.input_is_directory);
    let now = std::fs::read(&out).ok();
    let before = c.previous.as_ref().map(|p| p.bytes());
    ensure!(now == before, "without input.wav, output.rs of {:?} bytes became {:?} bytes", before.map(|b| b.len()), now.map(|b| b.len()));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    let edge: Vec<Case> = (0..=140)
        .flat_map(|n| [0u8, 42, 255].map(|b| Case { content: Content::Same(b, n), before: vec![], previous: None, limit: None }))
        .chain([Case { content: Content::List((0..=255).collect()), before: vec![], previous: None, limit: None }])
        .collect();
    let huge = [(1usize << 24) + 1, (1 << 22) + 7]
        .iter()
        .map(|n| Case { content: Content::Noise(*n as u64, *n), before: vec![], previous: None, limit: None })
        .collect();
    vec![Property {
        id: "C34",
        rule: "A case is a file's content (all lengths up to 140 of one byte; random, mixed digits, up to 16 MiB and a byte), a previous output, conversions before, and a limit on the size of files at some byte; or no readable input or no writable output. The output is read by an independent strict parser, or compiled with rustc where that does not apply and in a sub-check of its own. Non-trivial: the input is not empty, or the run fails.",
        assumptions: &["the tool is run in an empty scratch directory"],
        subs: vec![
            Sub::new("tables", 12_000, 240_000, gen, run).with_cases(edge, run),
            Sub::new("large", 32, 640, gen_large, run).with_cases(huge, run),
            Sub::new("huge", 0, 16, gen_huge, run),
            Sub::new("cut_output", 4_000, 100_000, gen_limit, run),
            Sub::new("no_input", 1_000, 20_000, gen_missing, run_missing),
            Sub::new("compile", 120, 2_400, gen_compile, run_compile),
        ],
        probes: vec![],
    }]
}
