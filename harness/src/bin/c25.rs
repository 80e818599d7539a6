//! C25: lookup-table waveforms have the right shape over the whole argument range.
use embedded_audio_tools::float::AdditionalF32Ext;
use pbt::num::si_table;
use pbt::*;
use std::f64::consts::PI;

/// The curve in the first quarter.
fn gibbs(x: f64) -> f64 {
    let t = si_table();
    let i = (x * 20296.0).clamp(0.0, 5074.0);
    let k = i as usize;
    let f = i - k as f64;
    5.0 / (3.0 * PI) * (t[k] * (1.0 - f) + t[k + 1] * f)
}
/// The whole period.
fn rect(x: f64) -> f64 {
    if x <= 0.0 || x >= 1.0 {
        0.0
    } else if x <= 0.5 {
        gibbs(x.min(0.5 - x))
    } else {
        -rect(x - 0.5)
    }
}

fn rect_ok(x: f32) -> Res {
    let r = x.lookup_bl_rect();
    if x <= 0.0 || x >= 1.0 {
        ensure!(r == 0.0, "lookup_bl_rect({x:?}) = {r:?}");
        return Ok(());
    }
    let want = rect(x as f64);
    ensure!((r as f64 - want).abs() <= 1e-4, "lookup_bl_rect({x:?}) = {r:?}, want {want}");
    if x > 1e-30 && x < 0.5 {
        ensure!(r > 0.0, "lookup_bl_rect({x:?}) = {r:?} in the first half");
    }
    if x > 0.5 {
        ensure!(r < 0.0, "lookup_bl_rect({x:?}) = {r:?} in the second half");
    }
    Ok(())
}
fn unit(s: &mut Src) -> f32 {
    match s.weighted(&[4, 3, 2, 1]) {
        0 => s.f32_in(0.0, 1.0),
        1 => {
            // a hair beside the quarters
            let q = s.pick(&[0.25f32, 0.5, 0.75, 1.0]);
            f32::from_bits(q.to_bits() + s.below(65) as u32 - 32)
        }
        2 => {
            // table positions
            let k = s.usize_in(0, 4 * 5074) as f64;
            let x = (k / 20296.0) as f32;
            f32::from_bits(x.to_bits() + (s.below(3) as u32) * (x != 0.0) as u32)
        }
        _ => s.f32_log(1e-38, 1.0),
    }
}
fn bl_rect(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = if s.chance(1, 8) { s.f32_any() } else { unit(s) };
    if x.is_nan() {
        return Ok(());
    }
    cx.note(|| format!("lookup_bl_rect({x:?})"));
    rect_ok(x)?;
    // symmetries, independent of the curve
    if x > 0.0 && x < 0.5 {
        let r = x.lookup_bl_rect();
        for (y, sg) in [(0.5 - x, 1.0f32), (0.5 + x, -1.0), (1.0 - x, -1.0)] {
            if y <= 0.0 || y >= 1.0 {
                continue;
            }
            let v = y.lookup_bl_rect();
            ensure!((v - sg * r).abs() <= 1e-4, "lookup_bl_rect({x:?}) = {r:?} but lookup_bl_rect({y:?}) = {v:?}");
        }
        cx.nontrivial();
    }
    cx.label_if(x <= 0.0 || x >= 1.0, "at or outside the ends");
    Ok(())
}
/// Evenly over [-1/16, 17/16].
fn period(i: u64) -> Result<bool, Fail> {
    let u = (i as u32).wrapping_mul(0x9E37_79B1) as f64 / 4294967296.0;
    let x = (u * 1.125 - 0.0625) as f32;
    rect_ok(x)?;
    Ok(x > 0.0 && x < 1.0)
}

fn sine_ok(x: f32) -> Res {
    let r = x.lookup_sin();
    ensure!((-1.0001..=1.0).contains(&r), "lookup_sin({x:?}) = {r:?}");
    let a = x.abs() as f64;
    if a <= 1e6 {
        let want = (x as f64).sin();
        ensure!((r as f64 - want).abs() <= 0.12 + 2.5e-7 * a, "lookup_sin({x:?}) = {r:?}, sin is {want}");
    }
    Ok(())
}
fn sine(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = match s.weighted(&[4, 2, 2, 1]) {
        0 => s.f32_in(-10.0, 10.0),
        1 => s.f32_in(-1e4, 1e4),
        2 => {
            let x = (s.i64_in(-400, 400) as f64 * PI / 4.0) as f32;
            f32::from_bits(x.to_bits().wrapping_add((s.below(9) as u32).wrapping_sub(4) * (x != 0.0) as u32))
        }
        _ => s.f32_finite(),
    };
    cx.note(|| format!("lookup_sin({x:?})"));
    sine_ok(x)?;
    if x.abs() <= 1e4 {
        let y = (PI - x as f64) as f32;
        let (p, q) = (x.lookup_sin(), y.lookup_sin());
        ensure!((p - q).abs() <= 2e-4 + 1e-6 * x.abs(), "lookup_sin({x:?}) = {p:?} but lookup_sin({y:?}) = {q:?}");
        cx.nontrivial();
    }
    Ok(())
}
/// Interpolated: no steps between neighbouring arguments, in particular next to the quarters.
fn smooth(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = match s.weighted(&[1, 2, 2]) {
        0 => s.f32_in(-10.0, 10.0),
        1 => ((s.i64_in(-8, 8) as f64 * PI / 4.0) + s.f32_in(-0.004, 0.004) as f64) as f32,
        _ => {
            // where the table may step
            let k = s.i64_in(-8 * 4095, 8 * 4095) as f64 * PI / 4095.0;
            (k + s.pick(&[0.0, 0.5 * PI]) + s.f32_in(-1e-5, 1e-5) as f64) as f32
        }
    };
    let y = x + s.f32_log(1e-7, 1e-4);
    let (p, q) = (x.lookup_sin(), y.lookup_sin());
    cx.note(|| format!("lookup_sin({x:?}) = {p:?}, lookup_sin({y:?}) = {q:?}"));
    let most = 2.0 * (y - x).abs() + 4e-6 + 2.5e-7 * x.abs();
    ensure!((p - q).abs() <= most, "lookup_sin({x:?}) = {p:?} and lookup_sin({y:?}) = {q:?}: a step of {}", (p - q).abs());
    cx.nontrivial_if(x != y);
    Ok(())
}
/// Evenly over [-8 pi, 8 pi].
fn turns(i: u64) -> Result<bool, Fail> {
    let u = (i as u32).wrapping_mul(0x9E37_79B1) as f64 / 4294967296.0;
    sine_ok(((u * 2.0 - 1.0) * 8.0 * PI) as f32)?;
    Ok(true)
}

fn main() {
    pbt::main(
        "C25",
        &[
            rand("bl_rect", 8_000_000, 100_000_000, bl_rect),
            sweep("period", 1 << 25, 1 << 32, period),
            rand("smooth", 2_000_000, 100_000_000, smooth),
            rand("sine", 8_000_000, 100_000_000, sine),
            sweep("turns", 1 << 24, 1 << 32, turns),
        ],
    );
}
