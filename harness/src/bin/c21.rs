//! C21: decibel conversion is monotone, accurate and classifies invalid ratios.
use core::num::FpCategory;
use embedded_audio_tools::convert::Decibels;
use pbt::*;

fn ratio_ok(r: f32) -> Res {
    let db = r.to_decibels_unchecked();
    let want = 20.0 * (r as f64).log10();
    // f32 rounding grows with the result
    let (below, above) = if r >= 1.0 { (0.01, 0.01) } else { (1.05, 0.01) };
    let d = db as f64 - want;
    ensure!(d >= -below && d <= above, "{r:?} is {db} dB, want {want}");
    match r.to_decibels() {
        Ok(v) => ensure!(v.to_bits() == db.to_bits(), "to_decibels({r:?}) = {v}, unchecked {db}"),
        Err(e) => return fail(format!("to_decibels({r:?}) reported {e:?}")),
    }
    match r.to_decibels_checked() {
        Ok(v) => ensure!(v.to_bits() == db.to_bits(), "to_decibels_checked({r:?}) = {v}, unchecked {db}"),
        Err(e) => return fail(format!("to_decibels_checked({r:?}) reported {e:?}")),
    }
    Ok(())
}

/// The approximations the library builds on ripple by this much (measured 6.7e-5 dB, relative 2.9e-5).
const RIPPLE_DB: f32 = 2e-4;
const RIPPLE_RATIO: f32 = 1e-4;

/// Every positive finite normal ratio and its successor.
fn ratios(i: u64) -> Result<bool, Fail> {
    let b = 0x0080_0000 + (i.wrapping_mul(0x9E37_79B1) % 0x7EFF_FFFF) as u32;
    let (x, y) = (f32::from_bits(b), f32::from_bits(b + 1));
    ratio_ok(x)?;
    let (p, q) = (x.to_decibels_unchecked(), y.to_decibels_unchecked());
    ensure!(p <= q + RIPPLE_DB || !y.is_finite(), "{x:?} is {p} dB but {y:?} is {q} dB");
    Ok(true)
}

fn pairs(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut one = |s: &mut Src| match s.weighted(&[3, 3, 2, 1]) {
        0 => s.f32_log(1e-6, 1e3),
        1 => s.f32_log(f32::MIN_POSITIVE, f32::MAX),
        2 => f32::from_bits(0x3F80_0000 - 64 + s.below(128) as u32),
        _ => 2f32.powi(s.i64_in(-126, 127) as i32),
    };
    let (mut x, mut y) = (one(s), one(s));
    if s.chance(1, 3) {
        y = f32::from_bits((x.to_bits() + s.below(4096) as u32).min(0x7F7F_FFFF));
    }
    if x > y {
        (x, y) = (y, x);
    }
    cx.note(|| format!("{x:?} <= {y:?}"));
    ratio_ok(x)?;
    ratio_ok(y)?;
    let (p, q) = (x.to_decibels_unchecked(), y.to_decibels_unchecked());
    ensure!(p <= q + RIPPLE_DB, "{x:?} is {p} dB but {y:?} is {q} dB");
    cx.nontrivial_if(x < y);
    Ok(())
}

fn classify(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = match s.weighted(&[2, 3, 2, 2]) {
        0 => s.pick(&[0.0f32, -0.0]),
        1 => s.f32_any(),
        2 => -s.f32_log(1e-38, 1e38),
        _ => f32::from_bits(0x7F80_0001 + s.below(0x7F_FFFE) as u32 | (s.below(2) as u32) << 31),
    };
    cx.note(|| format!("{x:?}"));
    let (a, b) = (x.to_decibels(), x.to_decibels_checked());
    ensure!(!matches!(a, Ok(v) if v.is_nan()) && !matches!(b, Ok(v) if v.is_nan()), "checked conversion of {x:?} returned NaN: {a:?} {b:?}");
    if x.is_nan() || x < 0.0 {
        ensure!(a == Err(FpCategory::Nan) && b == Err(FpCategory::Nan), "invalid ratio {x:?} gave {a:?} and {b:?}");
        cx.nontrivial();
    } else if x == 0.0 {
        ensure!(a == Ok(f32::NEG_INFINITY), "to_decibels({x:?}) = {a:?}");
        ensure!(x.to_decibels_unchecked() == f32::NEG_INFINITY, "ratio {x:?} is {} dB", x.to_decibels_unchecked());
        ensure!(b == Err(FpCategory::Infinite), "to_decibels_checked({x:?}) = {b:?}");
        cx.nontrivial();
    }
    Ok(())
}

/// Ratios below the normal range: beyond what the logarithm resolves, but ordered and never an error.
fn subnormal(s: &mut Src, cx: &mut Ctx) -> Res {
    let b = 1 + match s.below(3) {
        0 => s.below(0x7F_FFFF) as u32,
        1 => s.below(64) as u32,
        _ => (1u32 << s.below(23)) - 1,
    };
    let x = f32::from_bits(b);
    cx.note(|| format!("{x:e}"));
    let db = x.to_decibels_unchecked();
    ensure!((-900.0..=-758.58).contains(&db), "{x:e} is {db} dB");
    ensure!(x.to_decibels() == Ok(db) && x.to_decibels_checked() == Ok(db), "{x:e}: {:?}, {:?}, unchecked {db}", x.to_decibels(), x.to_decibels_checked());
    let y = f32::from_bits(b + 1 + s.below(0x10_0000) as u32);
    let q = y.to_decibels_unchecked();
    ensure!(db <= q + RIPPLE_DB, "{x:e} is {db} dB but {y:e} is {q} dB");
    let i = f32::INFINITY;
    ensure!(i.to_decibels_unchecked() == i && i.to_decibels() == Ok(i) && i.to_decibels_checked() == Ok(i), "infinite ratio: {:?}, {:?}", i.to_decibels(), i.to_decibels_checked());
    cx.nontrivial();
    Ok(())
}

fn volt_ok(d: f32) -> Res {
    let r = d.to_volt_ratio() as f64;
    let want = 10f64.powf(d as f64 / 20.0);
    ensure!((r - want).abs() <= 0.005 * want, "{d:?} dB is ratio {r}, want {want}");
    Ok(())
}
/// Within what an f32 ratio can express.
fn db(s: &mut Src) -> f32 {
    match s.weighted(&[3, 3, 1, 1]) {
        0 => s.f32_in(-120.0, 40.0),
        1 => s.f32_in(-700.0, 768.0),
        2 => s.i64_in(-100, 100) as f32 * 6.0206,
        _ => s.f32_log(1e-38, 1.0) * s.pick(&[1.0f32, -1.0]),
    }
}
fn volts(s: &mut Src, cx: &mut Ctx) -> Res {
    let (mut x, mut y) = (db(s), db(s));
    if s.chance(1, 3) {
        y = x + s.f32_log(1e-6, 1.0);
    }
    if x > y {
        (x, y) = (y, x);
    }
    cx.note(|| format!("{x:?} <= {y:?} dB"));
    volt_ok(x)?;
    volt_ok(y)?;
    let (p, q) = (x.to_volt_ratio(), y.to_volt_ratio());
    ensure!(p <= q * (1.0 + RIPPLE_RATIO), "{x:?} dB is {p:?} but {y:?} dB is {q:?}");
    ensure!(0f32.to_volt_ratio() == 1.0 && (-0f32).to_volt_ratio() == 1.0, "0 dB is {}", 0f32.to_volt_ratio());
    ensure!(f32::NEG_INFINITY.to_volt_ratio() == 0.0, "-inf dB is {}", f32::NEG_INFINITY.to_volt_ratio());
    cx.nontrivial_if(x < y);
    Ok(())
}
/// Neighbouring decibel values in steps of 2^-14 dB.
fn fine(i: u64) -> Result<bool, Fail> {
    let i = i.wrapping_mul(0x9E37_79B1) % (1 << 24);
    let x = (i as f32 - 8_388_608.0) / 16384.0;
    let y = (i as f32 - 8_388_607.0) / 16384.0;
    volt_ok(x)?;
    let (p, q) = (x.to_volt_ratio(), y.to_volt_ratio());
    ensure!(p <= q * (1.0 + RIPPLE_RATIO), "{x:?} dB is {p:?} but {y:?} dB is {q:?}");
    Ok(true)
}

fn main() {
    pbt::main(
        "C21",
        &[
            sweep("ratios", 1 << 26, 0x7EFF_FFFF, ratios),
            rand("pairs", 4_000_000, 50_000_000, pairs),
            rand("classify", 2_000_000, 20_000_000, classify),
            rand("subnormal", 1_000_000, 10_000_000, subnormal),
            rand("volts", 4_000_000, 50_000_000, volts),
            sweep("fine", 1 << 24, 1 << 24, fine),
        ],
    );
}
