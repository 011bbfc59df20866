//! C09 sample codes; C14-C16 sample formats; C17, C18 utilities; C37 debug.

use crate::engine::*;
use crate::ensure;
use crate::gens::*;
use bae_rs::debug::{float_equal, VecReader};
use bae_rs::utils::*;
use bae_rs::*;
use std::convert::TryFrom;
use std::io::Read;
use std::ops::{Add, Div, Mul};
use std::time::Duration;

// ------------------------------------------------------------------------- C09

#[derive(Debug, Clone)]
struct Codes {
    bits: u16,
    from: i64,
    n: i64,
    seed: u64,
}

fn all_codes() -> Vec<Codes> {
    let mut v = vec![Codes { bits: 8, from: 0, n: 256, seed: 1 }, Codes { bits: 16, from: -32768, n: 65536, seed: 2 }];
    v.extend((0..256).map(|i| Codes { bits: 24, from: -8388608 + i * 65536, n: 65536, seed: i as u64 }));
    v
}

fn gen_codes(s: &mut Src) -> Codes {
    let bits = s.pick(&[8u16, 16, 24]);
    let (lo, hi) = match bits {
        8 => (0, 255),
        16 => (-32768, 32767),
        _ => (-8388608, 8388607),
    };
    let from = s.int(lo, hi);
    Codes { bits, from, n: (1 + s.size(200) as i64).min(hi - from + 1), seed: s.below(1 << 30) }
}

fn close(a: f64, b: f64, rel: f64) -> bool {
    (a - b).abs() <= rel * b.abs()
}

fn run_codes(c: &Codes, obs: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed);
    for k in c.from..c.from + c.n {
        match c.bits {
            8 => {
                let k = k as u8;
                let x = sample_from_u8(k);
                let want = (k as f64 - 128.0) / 128.0;
                ensure!(close(x as f64, want, 1.2e-7), "8-bit code {k} converts to {x:?}, expected {want:?}");
                ensure!(sample_to_u8(x) == k, "8-bit code {k} -> {x:?} -> {}", sample_to_u8(x));
                ensure!(sample_from_u8_bytes([k]) == x, "8-bit code {k} from bytes: {:?}", sample_from_u8_bytes([k]));
                ensure!(sample_to_u8_bytes(x) == [k], "{x:?} to 8-bit bytes: {:?}", sample_to_u8_bytes(x));
            }
            16 => {
                let k = k as i16;
                let x = sample_from_i16(k);
                let want = k as f64 / 32767.0;
                ensure!(close(x as f64, want, 1.2e-7), "16-bit code {k} converts to {x:?}, expected {want:?}");
                ensure!(sample_to_i16(x) == k, "16-bit code {k} -> {x:?} -> {}", sample_to_i16(x));
                let b = [(k as u16 & 255) as u8, (k as u16 >> 8) as u8];
                ensure!(sample_from_i16_bytes(b) == x, "16-bit code {k} from bytes: {:?}", sample_from_i16_bytes(b));
                ensure!(sample_to_i16_bytes(x) == b, "{x:?} to 16-bit bytes: {:?}, expected {b:?}", sample_to_i16_bytes(x));
            }
            _ => {
                let k = k as i32;
                let x = sample_from_i24(k);
                let want = k as f64 / 8388607.0;
                ensure!(close(x as f64, want, 1.2e-7), "24-bit code {k} converts to {x:?}, expected {want:?}");
                let u = (k & 0xff_ffff) | ((r.next() as i32) << 24);
                ensure!(sample_from_i24(u) == x, "24-bit code {k} with upper byte set ({u:#x}) converts to {:?}", sample_from_i24(u));
                let back = sample_to_i24(x);
                ensure!(back & 0xff_ffff == k & 0xff_ffff, "24-bit code {k} -> {x:?} -> {back}");
                ensure!((back << 8) >> 8 == back || k == -8388608, "{x:?} converts to {back}, which is not a 24-bit code");
                let b = [(k & 255) as u8, (k >> 8 & 255) as u8, (k >> 16 & 255) as u8];
                ensure!(sample_from_i24_bytes(b) == x, "24-bit code {k} from bytes: {:?}", sample_from_i24_bytes(b));
                ensure!(sample_to_i24_bytes(x) == b, "{x:?} to 24-bit bytes: {:?}, expected {b:?}", sample_to_i24_bytes(x));
            }
        }
    }
    obs.compared += c.n as u64;
    obs.nontrivial = true;
    obs.label_if(c.from < 0 && c.bits > 8, "negative codes");
    Ok(())
}

#[derive(Debug)]
struct Quant {
    x: f32,
    y: f32,
}

fn quant_sample(s: &mut Src) -> f32 {
    match s.below(8) {
        0 => s.pick(&[0.0, 1.0, -1.0, -0.0, 1.0 - f32::EPSILON / 2.0, -1.0 + f32::EPSILON / 2.0, 1.0 + f32::EPSILON, -1.0 - f32::EPSILON]),
        1 => (s.int(-256, 256) as f32 + 0.5) / 128.0 / 2.0,
        2 => ((s.int(-32768, 32767) as f64 + 0.5) / 32767.0) as f32,
        3 => ((s.int(-8388608, 8388607) as f64 + 0.5) / 8388607.0) as f32,
        4 => finite_f32(s),
        5 => s.uni(-3.0, 3.0) as f32,
        6 => s.logu(1e-9, 1.0) as f32 * if s.chance(1, 2) { -1.0 } else { 1.0 },
        _ => s.uni(-1.0, 1.0) as f32,
    }
}

fn gen_quant(s: &mut Src) -> Quant {
    let x = quant_sample(s);
    let y = if s.chance(1, 2) {
        let b = x.to_bits() as i64 + s.int(-3, 3);
        let y = f32::from_bits(b.max(0) as u32);
        if y.is_finite() {
            y
        } else {
            x
        }
    } else {
        quant_sample(s)
    };
    Quant { x, y }
}

fn run_quant(c: &Quant, obs: &mut Obs) -> Res {
    for x in [c.x, c.y] {
        let k = sample_to_u8(x) as f64;
        let want = (x as f64 * 128.0 + 128.0).max(0.0).min(255.0);
        ensure!((k - want).abs() <= 0.5001, "{x:?} converts to 8-bit code {k}, expected about {want}");
        ensure!(sample_to_u8_bytes(x) == [k as u8], "{x:?}: 8-bit code {k} but bytes {:?}", sample_to_u8_bytes(x));
        let k = sample_to_i16(x) as f64;
        let want = (x as f64 * 32767.0).max(-32768.0).min(32767.0);
        ensure!((k - want).abs() <= 0.505, "{x:?} converts to 16-bit code {k}, expected about {want}");
        ensure!(sample_to_i16_bytes(x) == (k as i16).to_le_bytes(), "{x:?}: 16-bit code {k} but bytes {:?}", sample_to_i16_bytes(x));
        if x.abs() <= 1.0 {
            let k = sample_to_i24(x) as f64;
            let want = x as f64 * 8388607.0;
            ensure!((k - want).abs() <= 1.001, "{x:?} converts to 24-bit code {k}, expected about {want}");
            let b = (k as i32).to_le_bytes();
            ensure!(sample_to_i24_bytes(x) == [b[0], b[1], b[2]], "{x:?}: 24-bit code {k} but bytes {:?}", sample_to_i24_bytes(x));
            obs.label("within full scale");
        } else {
            obs.label("saturating");
        }
    }
    let (a, b) = if c.x <= c.y { (c.x, c.y) } else { (c.y, c.x) };
    ensure!(sample_to_u8(a) <= sample_to_u8(b), "8 bit: {a:?} <= {b:?} but {} > {}", sample_to_u8(a), sample_to_u8(b));
    ensure!(sample_to_i16(a) <= sample_to_i16(b), "16 bit: {a:?} <= {b:?} but {} > {}", sample_to_i16(a), sample_to_i16(b));
    if a >= -1.0 && b <= 1.0 {
        ensure!(sample_to_i24(a) <= sample_to_i24(b), "24 bit: {a:?} <= {b:?} but {} > {}", sample_to_i24(a), sample_to_i24(b));
    }
    ensure!(sample_to_u8(0.0) == 128 && sample_to_i16(0.0) == 0 && sample_to_i24(0.0) == 0, "silence");
    ensure!(
        sample_to_u8(1.0) == 255 && sample_to_u8(-1.0) == 0 && sample_to_i16(1.0) == 32767 && sample_to_i16(-1.0) == -32767
            && sample_to_i24(1.0) == 8388607 && sample_to_i24(-1.0) == -8388607,
        "full scale"
    );
    obs.compared += 8;
    obs.nontrivial = c.x != 0.0;
    Ok(())
}

// ------------------------------------------------------------------------- C14

#[derive(Debug)]
struct Arith {
    a: [f32; 2],
    b: [f32; 2],
    f: f32,
    d: f64,
}

fn wide_f64(s: &mut Src) -> f64 {
    let v = match s.below(5) {
        0 => s.pick(&[0.0, 1.0, -1.0, 0.1, -0.0, 1e-50, 1e50, 1e-40, 1e39, 1e-300, -1e300, 0.5, 2.0]),
        1 => s.uni(-4.0, 4.0),
        2 => s.logu(1e-60, 1e60),
        3 => -s.logu(1e-60, 1e60),
        _ => f64::from_bits(s.u64()),
    };
    if v.is_finite() {
        v
    } else {
        0.3
    }
}

fn gen_arith(s: &mut Src) -> Arith {
    let mut v = || if s.chance(1, 2) { sample(s) } else { finite_f32(s) };
    let (a, b) = ([v(), v()], [v(), v()]);
    let f = v();
    Arith { a, b, f, d: wide_f64(s) }
}

/// `got` is `want` rounded to single precision (to within a few units).
fn rounded(got: f32, want: f64) -> bool {
    if got.is_nan() {
        return want.is_nan();
    }
    let w = want as f32;
    if got == w {
        return true;
    }
    if want.abs() > 3.4028e38 {
        return got.is_sign_positive() == (want > 0.0) && got.abs() as f64 > 3.4027e38;
    }
    (got as f64 - want).abs() <= 2.4e-7 * want.abs() + 3e-45
}

trait Parts: SampleFormat + Copy {
    fn make(v: [f32; 2]) -> Self;
    fn parts(self) -> Vec<f32>;
    const NAME: &'static str;
}
impl Parts for Mono {
    fn make(v: [f32; 2]) -> Self {
        Mono { mono: v[0] }
    }
    fn parts(self) -> Vec<f32> {
        vec![self.mono]
    }
    const NAME: &'static str = "mono";
}
impl Parts for Stereo {
    fn make(v: [f32; 2]) -> Self {
        Stereo { left: v[0], right: v[1] }
    }
    fn parts(self) -> Vec<f32> {
        vec![self.left, self.right]
    }
    const NAME: &'static str = "stereo";
}

fn same(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn arith<T: Parts>(c: &Arith, obs: &mut Obs) -> Res {
    let (a, b) = (T::make(c.a), T::make(c.b));
    let mut look = |op: &str, got: T, assigned: Option<T>, want: &dyn Fn(f64, f64) -> f64| -> Res {
        let (x, y, g) = (a.parts(), b.parts(), got.parts());
        for i in 0..x.len() {
            let w = want(x[i] as f64, y[i] as f64);
            ensure!(rounded(g[i], w), "{} {op}: component {i} is {:?}, expected {w:?}", T::NAME, g[i]);
            if let Some(z) = assigned {
                let z = z.parts()[i];
                ensure!(same(z, g[i]), "{} {op}: component {i} is {:?} assigning, {:?} otherwise", T::NAME, z, g[i]);
            }
            obs.compared += 1;
        }
        Ok(())
    };
    let by = |f: &dyn Fn(&mut T)| {
        let mut t = a;
        f(&mut t);
        Some(t)
    };
    look("neg", -a, None, &|x, _| -x)?;
    look("+", a + b, by(&|t| *t += b), &|x, y| x + y)?;
    look("-", a - b, by(&|t| *t -= b), &|x, y| x - y)?;
    look("*", a * b, by(&|t| *t *= b), &|x, y| x * y)?;
    let (f, d) = (c.f, c.d);
    look("* f32", a * f, by(&|t| *t *= f), &|x, _| x * f as f64)?;
    look("* f64", a * d, by(&|t| *t *= d), &|x, _| x * d)?;
    Ok(())
}

fn run_arith(c: &Arith, obs: &mut Obs) -> Res {
    arith::<Mono>(c, obs)?;
    arith::<Stereo>(c, obs)?;
    obs.nontrivial = c.a[0] != c.a[1] && c.b[0] != 0.0;
    obs.label_if((c.d as f32).is_infinite() || (c.d != 0.0 && c.d as f32 == 0.0), "scalar beyond single precision");
    Ok(())
}

// ------------------------------------------------------------------------- C15

#[derive(Debug)]
struct Conv {
    x: f32,
    l: f32,
    r: f32,
    u: Vec<u8>,
    h: Vec<i16>,
    w: Vec<i32>,
}

fn gen_conv(s: &mut Src) -> Conv {
    let len = |s: &mut Src| s.below(5) as usize;
    let (a, b, c) = (len(s), len(s), len(s));
    Conv {
        x: if s.chance(1, 4) { finite_f32(s) } else { sample(s) },
        l: sample(s),
        r: sample(s),
        u: (0..a).map(|_| super::wav::code(s, 8) as u8).collect(),
        h: (0..b).map(|_| super::wav::code(s, 16) as i16).collect(),
        w: (0..c).map(|_| super::wav::code(s, 24)).collect(),
    }
}

fn conv<T: Parts>(c: &Conv) -> Res {
    let n = T::num_samples();
    let name = T::NAME;
    ensure!(n == T::make([0.0; 2]).parts().len(), "{name} reports {n} channels");
    let v = T::from_sample(c.x).parts();
    let v2 = <T as From<f32>>::from(c.x).parts();
    ensure!(v.iter().zip(&v2).all(|(a, b)| same(*a, *b)), "{name}: from_sample({:?}) is {v:?}, From gives {v2:?}", c.x);
    let power: f64 = v.iter().map(|x| (*x as f64).powi(2)).sum();
    ensure!((power.sqrt() - c.x.abs() as f64).abs() <= 1e-6 * c.x.abs() as f64 + 3e-45, "{name}: from_sample({:?}) is {v:?}", c.x);
    ensure!(v.iter().all(|a| *a == v[0] && (*a == 0.0 || (*a > 0.0) == (c.x > 0.0))), "{name}: from_sample({:?}) is {v:?}", c.x);
    if c.x.abs() < 1e38 && (c.x.abs() > 1e-37 || c.x == 0.0) {
        let back = T::from_sample(c.x).into_sample();
        let back2: f32 = T::from_sample(c.x).into();
        ensure!((back as f64 - c.x as f64).abs() <= 1e-6 * c.x.abs() as f64, "{name}: {:?} comes back as {back:?}", c.x);
        ensure!(same(back, back2), "{name}: into_sample gives {back:?}, Into {back2:?}");
    }
    let t = T::make([c.l, c.r]);
    let p = t.parts();
    let m = t.into_sample();
    let want = if n == 1 { p[0] as f64 } else { (p[0] as f64 + p[1] as f64) * 0.5f64.sqrt() };
    let size: f64 = p.iter().map(|x| x.abs() as f64).sum();
    ensure!((m as f64 - want).abs() <= 1e-6 * size + 3e-45, "{name}: {p:?} becomes {m:?}, expected {want:?}");
    let m2: f32 = t.into();
    ensure!(same(m, m2), "{name}: into_sample gives {m:?}, Into {m2:?}");

    // codes
    let clamped = T::make([c.l.max(-1.0).min(1.0), c.r.max(-1.0).min(1.0)]);
    let q = clamped.parts();
    let u: Vec<u8> = clamped.into();
    let h: Vec<i16> = clamped.into();
    let w: Vec<i32> = clamped.into();
    ensure!(u.len() == n && h.len() == n && w.len() == n, "{name}: {} / {} / {} codes for {n} channels", u.len(), h.len(), w.len());
    for i in 0..n {
        ensure!(u[i] == sample_to_u8(q[i]), "{name}: channel {i} of {q:?} has 8-bit code {}", u[i]);
        ensure!(h[i] == sample_to_i16(q[i]), "{name}: channel {i} of {q:?} has 16-bit code {}", h[i]);
        ensure!(w[i] == sample_to_i24(q[i]), "{name}: channel {i} of {q:?} has 24-bit code {}", w[i]);
    }
    // beyond full scale they saturate
    let u: Vec<u8> = t.into();
    let h: Vec<i16> = t.into();
    for i in 0..n {
        ensure!(u[i] == sample_to_u8(p[i]), "{name}: channel {i} of {p:?} has 8-bit code {}", u[i]);
        ensure!(h[i] == sample_to_i16(p[i]), "{name}: channel {i} of {p:?} has 16-bit code {}", h[i]);
    }
    let a = T::try_from(c.u.clone());
    let b = T::try_from(c.h.clone());
    let d = T::try_from(c.w.clone());
    ensure!(a.is_err() == (c.u.len() < n) || c.u.len() > n, "{name} from {} 8-bit codes: {}", c.u.len(), if a.is_err() { "refused" } else { "accepted" });
    ensure!(b.is_err() == (c.h.len() < n) || c.h.len() > n, "{name} from {} 16-bit codes: {}", c.h.len(), if b.is_err() { "refused" } else { "accepted" });
    ensure!(d.is_err() == (c.w.len() < n) || c.w.len() > n, "{name} from {} 24-bit codes: {}", c.w.len(), if d.is_err() { "refused" } else { "accepted" });
    for i in 0..n {
        if let Ok(a) = a {
            ensure!(a.parts()[i] == sample_from_u8(c.u[i]), "{name} from 8-bit codes {:?}: {:?}", c.u, a.parts());
        }
        if let Ok(b) = b {
            ensure!(b.parts()[i] == sample_from_i16(c.h[i]), "{name} from 16-bit codes {:?}: {:?}", c.h, b.parts());
        }
        if let Ok(d) = d {
            ensure!(d.parts()[i] == sample_from_i24(c.w[i]), "{name} from 24-bit codes {:?}: {:?}", c.w, d.parts());
        }
    }
    ensure!(T::default().parts().iter().all(|x| *x == 0.0), "{name}: the default is not silence");
    Ok(())
}

fn run_conv(c: &Conv, obs: &mut Obs) -> Res {
    conv::<Mono>(c)?;
    conv::<Stereo>(c)?;
    ensure!(Mono::from(c.x).mono == c.x && Mono::new().mono == 0.0, "Mono::from({:?})", c.x);
    let s = Stereo::from(c.l, c.r);
    ensure!(s.left == c.l && s.right == c.r, "Stereo::from({:?}, {:?}) is ({:?}, {:?})", c.l, c.r, s.left, s.right);
    let z = Stereo::new();
    ensure!(z.left == 0.0 && z.right == 0.0, "Stereo::new()");
    obs.compared += 40;
    obs.label_if(c.u.len() < 2 || c.h.len() < 2 || c.w.len() < 2, "vector too short");
    obs.nontrivial = c.x != 0.0 || c.l != c.r;
    Ok(())
}

// ------------------------------------------------------------------------- C16

#[derive(Debug)]
struct Pan {
    s: f32,
    g: f64,
    g2: f64,
}

fn pan_pos(s: &mut Src) -> f64 {
    match s.below(6) {
        0 => s.pick(&[0.0, -1.0, 1.0, -0.5, 0.5, -0.0, -2.0, 2.0, 1e30, -1e30, 1.0000001, -1.0000001, 0.9999999, -0.9999999]),
        1 => s.uni(-3.0, 3.0),
        2 => s.logu(1e-12, 1.0) * if s.chance(1, 2) { 1.0 } else { -1.0 },
        3 => s.int(-8, 8) as f64 / 8.0,
        _ => s.uni(-1.0, 1.0),
    }
}

fn gen_pan(s: &mut Src) -> Pan {
    let x = if s.chance(1, 6) { s.logu(1e-38, 1e38) as f32 * if s.chance(1, 2) { 1.0 } else { -1.0 } } else { sample(s) };
    Pan { s: x, g: pan_pos(s), g2: pan_pos(s) }
}

fn law(g: f64) -> (f64, f64) {
    let g = g.max(-1.0).min(1.0);
    // decibels: left 0 at -1, -3 at 0, -120 at 1; right mirrored
    let side = |g: f64| if g <= 0.0 { -3.0 * (g + 1.0) } else { -3.0 - 117.0 * g };
    (10f64.powf(side(g) / 20.0), 10f64.powf(side(-g) / 20.0))
}

fn run_pan(c: &Pan, obs: &mut Obs) -> Res {
    let p64 = |s: f32, g: f64| <Stereo as Panner<f64>>::to_sample_format(s, g);
    let p32 = |s: f32, g: f32| <Stereo as Panner<f32>>::to_sample_format(s, g);
    let x = c.s as f64;
    let near = |got: f32, want: f64| (got as f64 - want).abs() <= 2e-6 * want.abs() + 1e-44;
    let a = p64(c.s, c.g);
    let (l, r) = law(c.g);
    ensure!(near(a.left, l * x) && near(a.right, r * x), "pan {:?} of {:?}: ({:?}, {:?}), expected ({:?}, {:?})", c.g, c.s, a.left, a.right, l * x, r * x);
    let g32 = c.g as f32;
    let b = p32(c.s, g32);
    let (l, r) = law(g32 as f64);
    ensure!(near(b.left, l * x) && near(b.right, r * x), "single precision pan {g32:?} of {:?}: ({:?}, {:?}), expected ({:?}, {:?})", c.s, b.left, b.right, l * x, r * x);
    let m = p64(c.s, -c.g);
    ensure!(near(m.left, a.right as f64) && near(m.right, a.left as f64), "pan {:?} is ({:?}, {:?}), mirrored ({:?}, {:?})", c.g, a.left, a.right, m.left, m.right);
    let o = p64(c.s, c.g2);
    let (lo, hi) = if c.g <= c.g2 { (a, o) } else { (o, a) };
    ensure!(lo.left.abs() >= hi.left.abs() * (1.0 - 1e-6) && lo.right.abs() <= hi.right.abs() * (1.0 + 1e-6), "panning from {:?} to {:?} is not monotone", c.g, c.g2);
    let t = p64(1.0, c.g);
    ensure!(near(a.left, t.left as f64 * x) && near(a.right, t.right as f64 * x), "pan {:?} is not proportional to the sample {:?}", c.g, c.s);
    let m64 = <Mono as Panner<f64>>::to_sample_format(c.s, c.g);
    let m32 = <Mono as Panner<f32>>::to_sample_format(c.s, g32);
    let mu = <Mono as Panner<u8>>::to_sample_format(c.s, 3);
    ensure!(m64.mono == c.s && m32.mono == c.s && mu.mono == c.s, "panning {:?} into mono gives {:?}, {:?}, {:?}", c.s, m64.mono, m32.mono, mu.mono);
    obs.compared += 10;
    obs.label(if c.g.abs() > 1.0 { "beyond the ends" } else if c.g == 0.0 { "centre" } else { "between" });
    obs.nontrivial = c.s != 0.0;
    Ok(())
}

// ------------------------------------------------------------------------- C17

#[derive(Debug)]
struct Norm {
    db: f64,
    t: Signal,
    offset: f32,
    gain: f32,
}

fn gen_norm(s: &mut Src) -> Norm {
    Norm {
        db: match s.below(4) {
            0 => s.pick(&[0.0, -3.0, -6.0, -120.0, 6.0, -20.0]),
            1 => s.uni(-120.0, 0.0),
            _ => s.uni(-60.0, 30.0),
        },
        t: match s.below(4) {
            0 => vec![Seg::Raw(s.list(0, 12, sample))],
            1 => vec![Seg::Const(amp(s), s.size(2000))],
            2 => vec![Seg::Impulse(amp(s), 1 + s.size(300)), Seg::Const(amp(s), s.size(300))],
            _ => signal(s, 1500),
        },
        offset: if s.chance(1, 2) { 0.0 } else { sample(s) },
        gain: match s.below(4) {
            0..=1 => 1.0,
            2 => s.logu(1e-30, 1e30) as f32,
            _ => s.uni(-3.0, 3.0) as f32,
        },
    }
}

fn gen_norm_huge(s: &mut Src) -> Norm {
    let n = s.us(17_000_000, 18_000_000);
    norm_long(s, n)
}

fn gen_norm_long(s: &mut Src) -> Norm {
    let n = s.us(200_000, 3_000_000);
    norm_long(s, n)
}

fn norm_long(s: &mut Src, n: usize) -> Norm {
    let t = match s.below(4) {
        3 => rests(s, n),
        0 => vec![Seg::Noise(s.below(1 << 16), amp(s), n)],
        1 => vec![Seg::Tone(s.logu(1.0, 20_000.0), amp(s), n), Seg::Impulse(amp(s), 10)],
        _ => vec![Seg::Const(amp(s), n), Seg::Noise(s.below(1 << 16), amp(s), n / 3)],
    };
    Norm { t, ..gen_norm(s) }
}

fn run_norm(c: &Norm, obs: &mut Obs) -> Res {
    let t: Vec<f32> = render(&c.t).iter().map(|x| (x + c.offset) * c.gain).map(|x| if x.is_finite() { x } else { 1.0 }).collect();
    let mut y = t.clone();
    normalize(c.db, &mut y);
    ensure!(y.len() == t.len(), "{} samples of {}", y.len(), t.len());
    obs.compared += t.len() as u64;
    if t.is_empty() {
        obs.label("empty");
        return Ok(());
    }
    for (i, v) in y.iter().enumerate() {
        ensure!(v.is_finite(), "sample {i} of {} is {v:?}", t.len());
    }
    let constant = t.iter().all(|x| *x == t[0]);
    let top = t.iter().fold(0.0, |m: f64, x| m.max(x.abs() as f64));
    if constant {
        obs.label("constant");
        obs.nontrivial = t.len() > 1;
        for (i, v) in y.iter().enumerate() {
            ensure!(*v == 0.0, "a constant track ({:?}, {} samples) becomes {v:?} at sample {i}", t[0], t.len());
        }
        return Ok(());
    }
    let mut sum = DD::new(0.0);
    for x in &t {
        sum = sum.add(*x as f64);
    }
    let dc = sum.hi / t.len() as f64;
    let peak = t.iter().fold(0.0, |m: f64, x| m.max((*x as f64 - dc).abs()));
    let lin = 10f64.powf(c.db / 20.0);
    let tol = lin * (1e-6 + 8.0 * t.len() as f64 * f64::EPSILON * top / peak);
    if tol > 0.05 * lin {
        obs.label("below rounding");
        return Ok(());
    }
    let got = y.iter().fold(0.0, |m: f64, x| m.max(x.abs() as f64));
    ensure!((got - lin).abs() <= tol, "the peak is {got:?}, expected {lin:?}");
    for i in 0..t.len() {
        let want = (t[i] as f64 - dc) * lin / peak;
        ensure!((y[i] as f64 - want).abs() <= tol, "sample {i}: {:?} becomes {:?}, expected {want:?}", t[i], y[i]);
    }
    obs.label_if(dc.abs() > 0.01 * peak, "with an offset");
    obs.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------------- C18

#[derive(Debug)]
struct Units {
    n: u64,
    ns: u64,
    gain: f64,
    db: f64,
}

fn gen_units(s: &mut Src) -> Units {
    Units {
        n: match s.below(4) {
            0 => s.below(2000),
            1 => s.below(1 << 24),
            2 => 48000 * s.below(1 << 20) + s.below(3),
            _ => s.logu(1.0, 1e12) as u64,
        },
        ns: match s.below(4) {
            0 => s.below(1_000_000),
            1 => s.below(10_000_000_000),
            // around half samples
            2 => (s.below(1 << 30) * 1_000_000_000 + 500_000_000) / 48000 + s.below(3),
            _ => s.below(1 << 50),
        },
        gain: match s.below(3) {
            0 => s.pick(&[1.0, 10.0, 0.1, 2.0, 0.5, 1e-6, 1e6, 100.0]),
            1 => s.logu(1e-300, 1e300),
            _ => s.logu(1e-6, 1e3),
        },
        db: match s.below(3) {
            0 => s.int(-200, 200) as f64,
            1 => s.uni(-6000.0, 6000.0),
            _ => s.uni(-120.0, 30.0),
        },
    }
}

fn run_units(c: &Units, obs: &mut Obs) -> Res {
    let d = samples_to_seconds(c.n as usize);
    // |d - n/48000| in units of 1/48000 ns
    let diff = (d.as_nanos() as i128 * 48000 - c.n as i128 * 1_000_000_000).abs();
    let tol = 48000 + (c.n as i128 * 1_000_000_000) / (1 << 51);
    ensure!(diff <= tol, "{} samples are {d:?}", c.n);
    let back = seconds_to_samples(d);
    ensure!(back == c.n as usize, "{} samples are {d:?}, which are {back} samples", c.n);
    let d = Duration::from_nanos(c.ns);
    let k = seconds_to_samples(d);
    let diff = (k as i128 * 1_000_000_000 - c.ns as i128 * 48000).abs();
    let tol = 500_000_000 + 10_000 + (c.ns as i128 * 48000) / (1 << 51);
    ensure!(diff <= tol, "{d:?} are {k} samples");
    let db = linear_to_db(c.gain);
    let want = 20.0 * c.gain.ln() / std::f64::consts::LN_10;
    ensure!((db - want).abs() <= 1e-10 + 1e-13 * want.abs(), "gain {:?} is {db:?} dB, expected {want:?}", c.gain);
    let g = db_to_linear(db);
    ensure!((g - c.gain).abs() <= 1e-11 * c.gain, "gain {:?} is {db:?} dB, which is gain {g:?}", c.gain);
    let g = db_to_linear(c.db);
    let want = (c.db / 20.0 * std::f64::consts::LN_10).exp();
    ensure!((g - want).abs() <= 1e-11 * want, "{:?} dB is gain {g:?}, expected {want:?}", c.db);
    let b = linear_to_db(g);
    ensure!((b - c.db).abs() <= 1e-9, "{:?} dB is gain {g:?}, which is {b:?} dB", c.db);
    obs.compared += 7;
    obs.nontrivial = c.n > 0;
    Ok(())
}

#[derive(Debug)]
struct Lerp {
    x: f64,
    x1: f64,
    x2: f64,
    y1: f64,
    y2: f64,
}

fn coord(s: &mut Src) -> f64 {
    match s.below(5) {
        0 => s.pick(&[0.0, 1.0, -1.0, 2.0, 10.0, -0.5]),
        1 => s.int(-1000, 1000) as f64,
        2 => s.logu(1e-9, 1e9),
        3 => -s.logu(1e-9, 1e9),
        _ => s.uni(-10.0, 10.0),
    }
}

fn gen_lerp(s: &mut Src) -> Lerp {
    let x1 = coord(s);
    let mut x2 = coord(s);
    if (x1 as f32) == (x2 as f32) {
        x2 = x1 + 1.0 + x1.abs();
    }
    let x = match s.below(5) {
        0 => x1,
        1 => x2,
        2 => coord(s),
        _ => x1 + (x2 - x1) * s.uni(-0.5, 1.5),
    };
    Lerp { x, x1, x2, y1: coord(s), y2: coord(s) }
}

fn lerp_in<T>(c: &Lerp, eps: f64, to: fn(f64) -> T, of: fn(T) -> f64) -> Res
where
    T: Copy + PartialOrd + Add<Output = T> + std::ops::Sub<Output = T> + Mul<Output = T> + Div<Output = T> + std::fmt::Debug,
{
    let (x, x1, x2, y1, y2) = (to(c.x), to(c.x1), to(c.x2), to(c.y1), to(c.y2));
    let exact = |x: f64| {
        let (x1, x2, y1, y2) = (of(x1), of(x2), of(y1), of(y2));
        let slope = (y2 - y1) / (x2 - x1);
        let d = slope * (x - x1);
        (y1 + d, eps * 8.0 * (y1.abs() + y2.abs() + d.abs()))
    };
    let (want, tol) = exact(of(x));
    let got = of(lerp(x, x1, x2, y1, y2));
    ensure!((got - want).abs() <= tol, "lerp at {x:?} from ({x1:?}, {y1:?}) to ({x2:?}, {y2:?}) is {got:?}, expected {want:?}");
    for (p, v) in [(x1, y1), (x2, y2)] {
        let got = of(lerp(p, x1, x2, y1, y2));
        let tol = eps * 8.0 * (of(y1).abs() + of(y2).abs());
        ensure!((got - of(v)).abs() <= tol, "lerp at the reference point {p:?} is {got:?}, expected {v:?}");
    }
    let (lo, hi) = if of(x1) < of(x2) { (of(x1), of(x2)) } else { (of(x2), of(x1)) };
    let (want, tol) = exact(of(x).max(lo).min(hi));
    let got = of(clerp(x, x1, x2, y1, y2));
    ensure!((got - want).abs() <= tol, "clerp at {x:?} from ({x1:?}, {y1:?}) to ({x2:?}, {y2:?}) is {got:?}, expected {want:?}");
    let rev = of(clerp(x, x2, x1, y2, y1));
    ensure!((rev - want).abs() <= tol, "clerp at {x:?} from ({x2:?}, {y2:?}) to ({x1:?}, {y1:?}) is {rev:?}, expected {want:?}");
    Ok(())
}

fn run_lerp(c: &Lerp, obs: &mut Obs) -> Res {
    lerp_in::<f64>(c, f64::EPSILON, |x| x, |x| x)?;
    lerp_in::<f32>(c, f32::EPSILON as f64, |x| x as f32, |x| x as f64)?;
    obs.compared += 10;
    obs.label(if c.x < c.x1.min(c.x2) || c.x > c.x1.max(c.x2) { "outside" } else { "inside" });
    obs.label_if(c.x1 > c.x2, "range given downwards");
    obs.nontrivial = c.y1 != c.y2;
    Ok(())
}

// ------------------------------------------------------------------------- C37

#[derive(Debug)]
struct Reads {
    data: Vec<u8>,
    sizes: Vec<usize>,
}

fn gen_reads(s: &mut Src) -> Reads {
    let big = s.chance(1, 4096);
    let n = if big { s.us(60_000, 300_000) } else { s.size(300) };
    let data = if n <= 16 {
        (0..n).map(|_| s.below(256) as u8).collect()
    } else {
        let mut r = Rng::new(s.below(1 << 16));
        (0..n).map(|_| r.next() as u8).collect()
    };
    Reads { data, sizes: s.list(1, 24, |s| s.size(if big { 100_000 } else { 80 })) }
}

fn run_reads(c: &Reads, obs: &mut Obs) -> Res {
    let mut r = VecReader::new(c.data.clone());
    let mut pos = 0;
    let mut ended = 0;
    for (i, n) in c.sizes.iter().chain([3usize, 0, 200, 200, 1, 7].iter()).enumerate() {
        // two different fillings show what was touched
        let mut buf = vec![(0xA5 ^ i) as u8; *n];
        let orig = buf.clone();
        let k = match r.read(&mut buf) {
            Ok(k) => k,
            Err(e) => return Err(format!("read {i} failed: {e}")),
        };
        let want = (*n).min(c.data.len() - pos);
        ensure!(k == want, "read {i} of {n} bytes at {pos} of {} returned {k}", c.data.len());
        ensure!(buf[..k] == c.data[pos..pos + k], "read {i} at {pos}: {:?} instead of {:?}", &buf[..k], &c.data[pos..pos + k]);
        ensure!(buf[k..] == orig[k..], "read {i} touched the buffer beyond the {k} bytes it returned");
        pos += k;
        ended += (*n > 0 && k == 0) as usize;
        obs.compared += 1;
    }
    // through the provided methods as well
    let mut all = Vec::new();
    let mut r = VecReader::new(c.data.clone());
    let first = c.sizes[0].min(c.data.len());
    let mut head = vec![0; first];
    ensure!(r.read_exact(&mut head).is_ok() && head == c.data[..first], "read_exact of {first} bytes");
    ensure!(r.read_to_end(&mut all).is_ok() && all == c.data[first..], "read_to_end after {first} bytes");
    let mut one = [0; 1];
    ensure!(r.read_exact(&mut one).is_err(), "read_exact past the end succeeded");
    obs.label_if(ended > 1, "read on after the end");
    obs.nontrivial = !c.data.is_empty();
    Ok(())
}

#[derive(Debug)]
struct Eq {
    a: f64,
    b: f64,
    e: f64,
}

fn gen_eq(s: &mut Src) -> Eq {
    let a = if s.chance(1, 3) { wide_f64(s) } else { coord(s) };
    let b = match s.below(4) {
        0 => a,
        1 => a + s.int(-4, 4) as f64 * 0.25,
        2 => a * (1.0 + s.uni(-1e-6, 1e-6)),
        _ => coord(s),
    };
    let e = match s.below(5) {
        0 => (a - b).abs(),
        1 => (a - b).abs() * (1.0 + s.uni(-1e-3, 1e-3)),
        2 => 0.0,
        3 => s.int(0, 8) as f64 * 0.25,
        _ => s.logu(1e-12, 1e3),
    };
    Eq { a, b, e }
}

fn run_eq(c: &Eq, obs: &mut Obs) -> Res {
    let want = (c.a - c.b).abs() < c.e;
    ensure!(float_equal(c.a, c.b, c.e, |x: f64| x.abs()) == want, "float_equal({:?}, {:?}, {:?}) is {}", c.a, c.b, c.e, !want);
    let (a, b, e) = (c.a as f32, c.b as f32, c.e as f32);
    let want = (a - b).abs() < e;
    ensure!(float_equal(a, b, e, f32::abs) == want, "float_equal({a:?}, {b:?}, {e:?}) is {}", !want);
    obs.label(if want { "equal" } else { "different" });
    obs.compared += 2;
    obs.nontrivial = c.a != c.b;
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C09",
            rule: "All 2^8, 2^16 and 2^24 codes are converted forth and back (24-bit ones also with a random upper byte, all also through the byte forms); random stretches of codes; and pairs of samples (at and next to code boundaries, quantisation thresholds, full scale and beyond, any magnitude) checked for quantisation error, saturation and monotonicity. Non-trivial: a code stretch, or a pair with a non-zero sample.",
            assumptions: &["24-bit codes of samples beyond full scale are not specified"],
            subs: vec![
                Sub::new("codes", 20_000, 1_000_000, gen_codes, run_codes).with_cases(all_codes(), run_codes),
                Sub::new("samples", 9_000_000, 200_000_000, gen_quant, run_quant),
            ],
            probes: vec![],
        },
        Property {
            id: "C14",
            rule: "A case is two pairs of finite samples of any magnitude and a single- and a double-precision scalar of any magnitude; every operator and its assigning form is compared per component with the number operation. Non-trivial: the two components differ and the second operand is not 0.",
            assumptions: &["finite operands"],
            subs: vec![Sub::new("operators", 8_000_000, 150_000_000, gen_arith, run_arith)],
            probes: vec![],
        },
        Property {
            id: "C15",
            rule: "A case is a mono value, a pair of component values, and code vectors of 0 to 4 elements in all three widths; all conversions in both directions and both formats are checked. Non-trivial: a non-zero value or differing components.",
            assumptions: &["vectors longer than the number of channels may be accepted or refused"],
            subs: vec![Sub::new("conversions", 7_500_000, 100_000_000, gen_conv, run_conv)],
            probes: vec![],
        },
        Property {
            id: "C16",
            rule: "A case is a sample and two pan positions (ends, centre, next to them, between, far outside); both precisions are compared with the decibel-linear law, its mirror image, proportionality and monotonicity. Non-trivial: the sample is not 0.",
            assumptions: &["finite positions"],
            subs: vec![Sub::new("pan", 10_000_000, 60_000_000, gen_pan, run_pan)],
            probes: vec![],
        },
        Property {
            id: "C17",
            rule: "A case is a level and a track (empty, single sample, constant, silent, mixed, 1e-30 to 1e30 in level, with and without offset); every sample is compared with the shifted and scaled original. Non-trivial: a non-constant track, or a constant one of at least two samples.",
            assumptions: &["finite samples", "tracks whose variation is below double-precision rounding of their offset are only checked to stay finite"],
            subs: vec![Sub::new("normalize", 6_250_000, 15_000_000, gen_norm, run_norm), Sub::new("long", 64, 1_280, gen_norm_long, run_norm), Sub::new("huge", 4, 80, gen_norm_huge, run_norm).threads(4)],
            probes: vec![],
        },
        Property {
            id: "C18",
            rule: "A case is a sample count, a duration (also around half samples), a gain over 600 decades and a level; or an interpolation with distinct reference points in single and double precision. Non-trivial: a non-zero count, or differing values at the reference points.",
            assumptions: &["sample counts up to 10^12 (beyond, doubles cannot count samples)"],
            subs: vec![Sub::new("units", 4_000_000, 100_000_000, gen_units, run_units), Sub::new("interpolation", 4_000_000, 100_000_000, gen_lerp, run_lerp)],
            probes: vec![],
        },
        Property {
            id: "C37",
            rule: "A case is a content and a sequence of buffer sizes, read with pre-filled buffers that show what was touched, to the end and beyond; or a pair of numbers and an epsilon at, near or away from their difference. Non-trivial: content is not empty, or the numbers differ.",
            assumptions: &[],
            subs: vec![Sub::new("reader", 3_200_000, 20_000_000, gen_reads, run_reads), Sub::new("float_equal", 6_000_000, 100_000_000, gen_eq, run_eq)],
            probes: vec![],
        },
    ]
}
