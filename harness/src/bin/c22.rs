//! C22: fixed-point sine and cosine are accurate over their whole domain.
use embedded_audio_tools::fixed_point::math::{sin_i16, sin_i16_unchecked};
use embedded_audio_tools::float::AdditionalF32Ext;
use pbt::*;
use std::f64::consts::PI;

const LIMIT: [f64; 5] = [5200.0, 2470.0, 106.0, 9.0, 6.0];

/// Every phase with every degree.
fn fixed(i: u64) -> Result<bool, Fail> {
    let (z, degree) = ((i & 0xFFFF) as u16 as i16, (i >> 16) as u8);
    let r = sin_i16(z, degree);
    if degree > 4 {
        ensure!(r == sin_i16(z, 4), "sin_i16({z}, {degree}) = {r}, degree 4 gives {}", sin_i16(z, 4));
        return Ok(false);
    }
    let d = degree as usize;
    let want = 32767.0 * (PI * z as f64 / 65536.0).sin();
    ensure!((r as f64 - want).abs() <= LIMIT[d], "sin_i16({z}, {degree}) = {r}, want {want:.2} within {}", LIMIT[d]);
    let u = unsafe { sin_i16_unchecked(z, degree) };
    ensure!(u == r, "sin_i16({z}, {degree}) = {r}, unchecked {u}");
    if z != i16::MIN {
        let m = sin_i16(-z, degree);
        ensure!((r as i32 + m as i32).abs() <= 3, "sin_i16({z}, {degree}) = {r} but sin_i16({}, {degree}) = {m}", -z);
    }
    if d >= 2 && z != i16::MAX {
        let n = sin_i16(z + 1, degree);
        ensure!(n as i32 - r as i32 >= -3, "sin_i16({z}, {degree}) = {r} but sin_i16({}, {degree}) = {n}", z + 1);
    }
    Ok(true)
}
/// Non-decreasing up to 3 steps over any distance, not just between neighbours.
fn order(i: u64) -> Result<bool, Fail> {
    let degree = (i % 3) as u8 + 2;
    let a = (i / 3 % 256) as i32 * 256 - 32768;
    // highest value before a, lowest value from a on
    let hi = (-32768..a).map(|z| sin_i16(z as i16, degree)).max();
    let lo = (a..32768).map(|z| sin_i16(z as i16, degree)).min().unwrap();
    ensure!(hi.map_or(true, |h| h as i32 - lo as i32 <= 3), "degree {degree}: {hi:?} is reached before phase {a}, {lo} after it");
    Ok(a > -32768)
}

fn float_ok(x: f32) -> Res {
    let tol = 1.5e-4 + 2.5e-7 * x.abs() as f64;
    let (s, c) = (x.fixed_point_sin(), x.fixed_point_cos());
    let (ws, wc) = ((x as f64).sin(), (x as f64).cos());
    ensure!((s as f64 - ws).abs() <= tol, "fixed_point_sin({x:?}) = {s}, want {ws}");
    ensure!((c as f64 - wc).abs() <= tol, "fixed_point_cos({x:?}) = {c}, want {wc}");
    ensure!(s.abs() <= 1.0001 && c.abs() <= 1.0001, "sine and cosine of {x:?}: {s}, {c}");
    Ok(())
}
fn float(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = match s.weighted(&[4, 3, 3, 2, 1]) {
        0 => s.f32_in(-7.0, 7.0),
        1 => s.f32_log(1e-6, 1e5) * s.pick(&[1.0f32, -1.0]),
        4 => s.f32_log(1e-38, 1.0) * s.pick(&[1.0f32, -1.0]),
        2 => {
            // a hair beside multiples of a quarter turn
            let k = s.i64_in(-4000, 4000) as f64;
            let x = (k * PI / 4.0) as f32;
            f32::from_bits(x.to_bits().wrapping_add((s.below(9) as u32).wrapping_sub(4) * (x != 0.0) as u32))
        }
        _ => s.f32_in(-1e5, 1e5),
    };
    cx.note(|| format!("{x:?}"));
    cx.nontrivial_if(x != 0.0);
    cx.label_if(x < 0.0, "negative");
    float_ok(x)
}
/// Evenly over [-8 pi, 8 pi].
fn turns(i: u64) -> Result<bool, Fail> {
    let x = (((i as u32).wrapping_mul(0x9E37_79B1) as f64 / 2147483648.0 - 1.0) * 8.0 * PI) as f32;
    float_ok(x)?;
    Ok(true)
}
/// Bounded for any finite angle.
fn bounded(i: u64) -> Result<bool, Fail> {
    let x = f32::from_bits((i as u32).wrapping_mul(0x9E37_79B1));
    if !x.is_finite() {
        return Ok(false);
    }
    let (s, c) = (x.fixed_point_sin(), x.fixed_point_cos());
    ensure!(s.abs() <= 1.0001 && c.abs() <= 1.0001, "sine and cosine of {x:?}: {s}, {c}");
    Ok(true)
}

fn main() {
    pbt::main(
        "C22",
        &[
            sweep("fixed", 1 << 24, 1 << 24, fixed),
            sweep("order", 768, 768, order),
            rand("float", 8_000_000, 100_000_000, float),
            sweep("turns", 1 << 24, 1 << 32, turns),
            sweep("bounded", 1 << 24, 1 << 32, bounded),
        ],
    );
}
