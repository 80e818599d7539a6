//! C20: scalar linear interpolation blends exactly and rejects bad input.
use embedded_audio_tools::errors::InterpolationError::{self, *};
use embedded_audio_tools::float::{lerp, lerp_unchecked};
use pbt::num::U;
use pbt::*;

fn end(s: &mut Src) -> f32 {
    let v = match s.weighted(&[4, 3, 2, 1]) {
        0 => s.f32_in(-1.0, 1.0),
        1 => s.i64_in(-1000, 1000) as f32,
        2 => s.f32_log(1e-30, 1e30) * s.pick(&[1.0f32, -1.0]),
        _ => s.f32_finite(),
    };
    if v.abs() <= 1e38 {
        v
    } else {
        v * 0.1
    }
}
fn factor(s: &mut Src) -> f32 {
    match s.weighted(&[6, 2, 1]) {
        0 => s.f32_in(0.0, 1.0),
        1 => s.pick(&[0.0f32, 1.0, -0.0, 0.5, 0.99999994, f32::EPSILON, f32::MIN_POSITIVE, 1e-45]),
        _ => s.f32_log(1e-40, 1.0),
    }
}

fn blend(s: &mut Src, cx: &mut Ctx) -> Res {
    let (a, t) = (end(s), factor(s));
    let b = if s.chance(1, 8) { a } else { end(s) };
    cx.note(|| format!("lerp({a:?}, {b:?}, {t:?})"));
    let r = match lerp(a, b, t) {
        Ok(r) => r,
        Err(e) => return fail(format!("lerp({a:?}, {b:?}, {t:?}) failed with {e:?}")),
    };
    let u = lerp_unchecked(a, b, t);
    ensure!(u.to_bits() == r.to_bits(), "lerp({a:?}, {b:?}, {t:?}) = {r:?}, unchecked {u:?}");
    let m = (a.abs().max(b.abs())) as f64;
    // rounding, and underflow of the partial products
    let e = 3.0 * U * m + 3e-45;
    let want = a as f64 * (1.0 - t as f64) + b as f64 * t as f64;
    ensure!((r as f64 - want).abs() <= e, "lerp({a:?}, {b:?}, {t:?}) = {r:?}, want {want:?}");
    if t == 0.0 {
        ensure!(r == a, "lerp({a:?}, {b:?}, {t:?}) = {r:?}");
    }
    if t == 1.0 {
        ensure!(r == b, "lerp({a:?}, {b:?}, {t:?}) = {r:?}");
    }
    let (lo, hi) = (a.min(b) as f64, a.max(b) as f64);
    ensure!(r as f64 >= lo - e && r as f64 <= hi + e, "lerp({a:?}, {b:?}, {t:?}) = {r:?} lies outside the end points");
    let t2 = factor(s);
    let r2 = lerp_unchecked(a, b, t2);
    let (dt, dr) = (t2 as f64 - t as f64, r2 as f64 - r as f64);
    let up = dr * dt.signum() * (b as f64 - a as f64).signum();
    ensure!(dt == 0.0 || up >= -2.0 * e, "lerp({a:?}, {b:?}) is not monotone: {t:?} -> {r:?}, {t2:?} -> {r2:?}");
    cx.nontrivial_if(a != b && t > 0.0 && t < 1.0);
    Ok(())
}

fn validate(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut any = |s: &mut Src| match s.weighted(&[3, 2, 2]) {
        0 => end(s),
        1 => f32::from_bits(0x7F80_0001 + s.below(0x7F_FFFE) as u32 | (s.below(2) as u32) << 31),
        _ => s.pick(&[f32::INFINITY, f32::NEG_INFINITY]),
    };
    let (a, b) = (any(s), any(s));
    let t = match s.weighted(&[3, 2, 3]) {
        0 => factor(s),
        1 => s.pick(&[1.0000001f32, -1e-45, -f32::MIN_POSITIVE, f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 2.0, -1.0]),
        _ => s.f32_any(),
    };
    cx.note(|| format!("lerp({a:?}, {b:?}, {t:?})"));
    let want: Option<InterpolationError> = if a.is_nan() || b.is_nan() {
        Some(InputNaN)
    } else if a.is_infinite() || b.is_infinite() {
        Some(InputInfinite)
    } else if !(0.0..=1.0).contains(&t) {
        Some(InterpolationRange)
    } else {
        None
    };
    let got = lerp(a, b, t);
    match (&got, &want) {
        (Ok(r), None) => ensure!(r.to_bits() == lerp_unchecked(a, b, t).to_bits(), "lerp({a:?}, {b:?}, {t:?}) = {r:?} differs from the unchecked form"),
        (Err(e), Some(w)) => ensure!(e == w, "lerp({a:?}, {b:?}, {t:?}) reported {e:?} instead of {w:?}"),
        _ => return fail(format!("lerp({a:?}, {b:?}, {t:?}) gave {got:?}, want {want:?}")),
    }
    cx.label_if(want == Some(InputNaN), "NaN end point");
    cx.label_if(want == Some(InputInfinite), "infinite end point");
    cx.label_if(want == Some(InterpolationRange), "factor out of range");
    cx.nontrivial_if(want.is_some());
    Ok(())
}

fn main() {
    pbt::main("C20", &[rand("blend", 12_000_000, 100_000_000, blend), rand("validate", 8_000_000, 80_000_000, validate)]);
}
