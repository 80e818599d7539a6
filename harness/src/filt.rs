//! Reference filter designs and evaluation shared by C10..C12.
use crate::num::C64;
use crate::Src;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};

pub type Co = BiquadCoeffs<Butterworth>;
pub type Bq = Biquad<Butterworth>;
/// b0 b1 b2 a1 a2
pub type K = [f64; 5];
pub const NAMES: [&str; 5] = ["b0", "b1", "b2", "a1", "a2"];

pub fn bits(c: &Co) -> [u32; 5] {
    [c.b0, c.b1, c.b2, c.a1, c.a2].map(|v| v.to_bits())
}
pub fn k64(c: &Co) -> K {
    [c.b0, c.b1, c.b2, c.a1, c.a2].map(|v| v as f64)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Low,
    High,
    All,
    Notch,
    Bell,
    Shelf,
}
pub const BASIC: [Kind; 4] = [Kind::Low, Kind::High, Kind::All, Kind::Notch];
pub const EVERY: [Kind; 6] = [Kind::Low, Kind::High, Kind::All, Kind::Notch, Kind::Bell, Kind::Shelf];

#[derive(Clone, Copy, Debug)]
pub struct Design {
    pub kind: Kind,
    pub fc: f32,
    pub q: f32,
    pub gain: f32,
    pub sr: f32,
}

impl Design {
    pub fn apply(&self, c: &mut Co) {
        let Design { kind, fc, q, gain, sr } = *self;
        match kind {
            Kind::Low => c.lowpass(fc, q, sr),
            Kind::High => c.highpass(fc, q, sr),
            Kind::All => c.allpass(fc, q, sr),
            Kind::Notch => c.notch(fc, q, sr),
            Kind::Bell => c.bell(fc, q, gain, sr),
            Kind::Shelf => c.low_shelf(fc, q, gain, sr),
        }
    }
    pub fn fresh(&self) -> Co {
        let mut c = Co::new();
        self.apply(&mut c);
        c
    }
    /// Normalised angle pi*fc/sr.
    pub fn x(&self) -> f64 {
        std::f64::consts::PI * self.fc as f64 / self.sr as f64
    }
}

/// Sample rate, and a cutoff with fc/sr in [lo, hi].
pub fn rates(s: &mut Src, lo: f64, hi: f64) -> (f32, f32) {
    let sr = if s.chance(2, 3) {
        s.sample_rate(4_000.0, 200_000.0)
    } else {
        s.f32_in(4_000.0, 200_000.0)
    };
    let r = if s.chance(1, 2) { (lo.ln() + (hi.ln() - lo.ln()) * s.unit()).exp() } else { lo + (hi - lo) * s.unit() };
    let fc = match s.weighted(&[6, 1, 1]) {
        0 => (r * sr as f64) as f32,
        1 => crate::rounded(r * sr as f64, s.usize_in(1, 3)),
        _ => sr / s.pick(&[4.0f32, 3.0, 5.0, 6.0, 8.0, 10.0, 12.0, 16.0, 20.0, 32.0, 100.0]),
    };
    let x = fc as f64 / sr as f64;
    (if x >= lo && x <= hi { fc } else { (r * sr as f64) as f32 }, sr)
}

/// A design that shares most of its arguments with `d`, or nearly.
pub fn related(s: &mut Src, d: &Design) -> Design {
    let mut r = *d;
    let near = |s: &mut Src, v: &mut f32, lo: f32, hi: f32| match s.weighted(&[4, 1, 1]) {
        0 => {}
        1 => {
            let e = s.f32_log(1e-6, 0.1);
            *v *= if s.chance(1, 2) { 1.0 + e } else { 1.0 - e }
        }
        _ => *v = s.f32_log(lo, hi),
    };
    if s.chance(1, 3) {
        r.kind = s.pick(&EVERY);
    }
    near(s, &mut r.fc, d.sr * 1e-3, d.sr * 0.49);
    near(s, &mut r.q, 0.1, 30.0);
    near(s, &mut r.gain, 0.1, 10.0);
    near(s, &mut r.sr, 4_000.0, 200_000.0);
    if s.chance(1, 6) {
        r.gain = -r.gain;
    }
    r.sr = r.sr.max(r.fc * 2.05);
    r
}

/// Coefficients in use: set by hand or designed before, often for something similar.
pub fn used(s: &mut Src, d: &Design) -> Co {
    let mut c = Co::new();
    for _ in 0..s.usize_in(0, 3) {
        match s.weighted(&[2, 3, 3]) {
            0 => {
                c.b0 = s.sample();
                c.b1 = s.sample();
                c.b2 = s.sample();
                c.a1 = s.sample();
                c.a2 = s.sample();
            }
            1 => {
                let (fc, sr) = rates(s, 1e-4, 0.49);
                Design { kind: s.pick(&EVERY), fc, q: s.f32_log(0.05, 100.0), gain: s.f32_in(-4.0, 4.0), sr }.apply(&mut c)
            }
            _ => related(s, d).apply(&mut c),
        }
    }
    c
}

/// Coefficients of the bilinear transform for warped frequency k.
pub fn reference(kind: Kind, k: f64, q: f64) -> K {
    let k2 = k * k;
    let a0 = 1.0 + k / q + k2;
    let (a1, a2) = (2.0 * (k2 - 1.0) / a0, (1.0 - k / q + k2) / a0);
    match kind {
        Kind::Low => [k2 / a0, 2.0 * k2 / a0, k2 / a0, a1, a2],
        Kind::High => [1.0 / a0, -2.0 / a0, 1.0 / a0, a1, a2],
        Kind::All => [a2, a1, 1.0, a1, a2],
        Kind::Notch => [(1.0 + k2) / a0, a1, (1.0 + k2) / a0, a1, a2],
        _ => unreachable!(),
    }
}

/// Bell with boost g (numerator has the gain), or its inverse.
pub fn bell(k: f64, q: f64, g: f64, cut: bool) -> K {
    let k2 = k * k;
    let (n, d) = if cut { (1.0, g) } else { (g, 1.0) };
    let a0 = 1.0 + d * k / q + k2;
    [
        (1.0 + n * k / q + k2) / a0,
        2.0 * (k2 - 1.0) / a0,
        (1.0 - n * k / q + k2) / a0,
        2.0 * (k2 - 1.0) / a0,
        (1.0 - d * k / q + k2) / a0,
    ]
}

/// Truncation error of the library's tangent (relative), for x <= 1.
pub fn tan_err(x: f64) -> f64 {
    1.5e-6 + 1.1e-3 * x.powi(17)
}

/// Are the coefficients those of `f(k)` for a k within the tangent's accuracy?
pub fn matches(c: &K, x: f64, rel: f64, abs: f64, f: impl Fn(f64) -> K) -> Result<(), String> {
    let (k, d) = (x.tan(), tan_err(x));
    let (m, lo, hi) = (f(k), f(k * (1.0 - d)), f(k * (1.0 + d)));
    for i in 0..5 {
        let slack = (lo[i] - m[i]).abs() + (hi[i] - m[i]).abs() + abs + rel * m[i].abs();
        if !((c[i] - m[i]).abs() <= slack) {
            return Err(format!("{} is {} instead of {} (within {slack:e})", NAMES[i], c[i], m[i]));
        }
    }
    Ok(())
}

/// H(e^{iw}) of the coefficients.
pub fn response(c: &K, w: f64) -> C64 {
    let (z1, z2) = (C64::cis(-w), C64::cis(-2.0 * w));
    let one = C64::new(1.0, 0.0);
    (c[0] * one + c[1] * z1 + c[2] * z2) / (one + c[3] * z1 + c[4] * z2)
}

/// Gain of the real filter at angular frequency w, measured from its impulse response.
pub fn measure(c: Co, w: f64, n: usize) -> C64 {
    let mut b = Bq::new(c);
    let mut h = C64::new(0.0, 0.0);
    for t in 0..n {
        let y = b.process(if t == 0 { 1.0 } else { 0.0 }) as f64;
        h = h + y * C64::cis(-w * t as f64);
    }
    h
}

/// Largest pole radius.
pub fn radius(c: &K) -> f64 {
    let (a1, a2) = (c[3], c[4]);
    let d = a1 * a1 / 4.0 - a2;
    if d < 0.0 {
        a2.sqrt()
    } else {
        a1.abs() / 2.0 + d.sqrt()
    }
}
