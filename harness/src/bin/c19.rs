//! C19: bit reduction truncates exactly and validates its arguments.
use embedded_audio_tools::errors::BitReductionError::{self, *};
use embedded_audio_tools::float::*;
use pbt::*;

fn name(e: &BitReductionError) -> &'static str {
    match e {
        OverBitReduction => "OverBitReduction",
        InputExceedsRange => "InputExceedsRange",
    }
}
/// trunc(|x| * 2^31 / 2^d) * 2^d / 2^31 with the sign of x; exact in f64.
fn linear(x: f32, d: u8) -> f64 {
    if d == 0 {
        return x as f64;
    }
    let q = (x.abs() as f64 * 2147483648.0 / 2f64.powi(d as i32)).trunc() * 2f64.powi(d as i32) / 2147483648.0;
    if x < 0.0 {
        -q
    } else {
        q
    }
}
fn in_range(s: &mut Src) -> f32 {
    match s.weighted(&[4, 3, 3, 1]) {
        0 => s.sample(),
        1 => {
            // around multiples of a quantisation step
            let k = s.below(31) as i32;
            let m = s.i64_in(-300, 300) as f64;
            let x = ((m * 2f64.powi(-k)) as f32).clamp(-1.0, 1.0);
            match s.below(3) {
                0 => x,
                1 => f32::from_bits(x.to_bits() + (x.abs() < 1.0) as u32),
                _ => f32::from_bits(x.to_bits().wrapping_sub((x != 0.0) as u32)),
            }
        }
        2 => {
            let e = 1 + s.below(127) as u32;
            f32::from_bits((s.below(2) as u32) << 31 | (e << 23 | s.below(1 << 23) as u32).min(0x3F80_0000))
        }
        _ => s.pick(&[1.0f32, -1.0, 0.0, -0.0, 0.99999994, -0.99999994, f32::MIN_POSITIVE, 1e-45]),
    }
}

fn lin(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = in_range(s);
    let d = s.usize_in(0, 30) as u8;
    cx.note(|| format!("bit_reduce({x:?}, {d})"));
    let r = match bit_reduce(x, d) {
        Ok(r) => r,
        Err(e) => return fail(format!("bit_reduce({x:?}, {d}) failed with {}", name(&e))),
    };
    let u = bit_reduce_unchecked(x, d);
    ensure!(u.to_bits() == r.to_bits(), "bit_reduce({x:?}, {d}) = {r:?}, unchecked {u:?}");
    let want = linear(x, d);
    ensure!(r as f64 == want, "bit_reduce({x:?}, {d}) = {r:?}, want {want:?}");
    // relations that do not depend on the oracle
    ensure!(r.abs() <= x.abs(), "bit_reduce({x:?}, {d}) = {r:?} grew");
    let step = 2f64.powi(d as i32 - 31);
    ensure!((x as f64 - r as f64).abs() <= step, "bit_reduce({x:?}, {d}) = {r:?} is off by more than a step");
    ensure!(bit_reduce_unchecked(-x, d) == -r, "bit_reduce({x:?}, {d}) is not sign symmetric");
    ensure!(bit_reduce_unchecked(r, d) == r, "bit_reduce({x:?}, {d}) is not idempotent");
    let y = in_range(s);
    let ry = bit_reduce_unchecked(y, d);
    ensure!(if x <= y { r <= ry } else { r >= ry }, "bit_reduce is not monotone: {x:?} -> {r:?}, {y:?} -> {ry:?} at {d}");
    cx.label_if(d == 0, "no reduction");
    cx.nontrivial_if(r != x);
    Ok(())
}

fn lin_args(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = if s.chance(1, 3) { s.pick(&[1.0f32, -1.0, 1.0000001, -1.0000001, 0.99999994, f32::INFINITY, f32::NEG_INFINITY]) } else { s.f32_any() };
    let d = if s.chance(1, 2) { s.usize_in(28, 34) as u8 } else { s.below(256) as u8 };
    if x.is_nan() {
        return Ok(());
    }
    cx.note(|| format!("bit_reduce({x:?}, {d})"));
    let (over, out) = (d > 30, !(-1.0..=1.0).contains(&x));
    match bit_reduce(x, d) {
        Ok(r) => {
            ensure!(!over && !out, "bit_reduce({x:?}, {d}) was accepted");
            ensure!(r as f64 == linear(x, d), "bit_reduce({x:?}, {d}) = {r:?}");
        }
        Err(OverBitReduction) => ensure!(over, "bit_reduce({x:?}, {d}) reported over-reduction"),
        Err(InputExceedsRange) => ensure!(out, "bit_reduce({x:?}, {d}) reported an input outside the range"),
    }
    cx.nontrivial_if(over || out);
    Ok(())
}

fn exp_check(b: u32, d: u8) -> Res {
    let x = f32::from_bits(b);
    let want = b & !((1u64 << d.min(31)) - 1) as u32;
    match bit_reduce_exp(x, d) {
        Ok(r) => {
            ensure!(d <= 23, "bit_reduce_exp({b:08x}, {d}) was accepted");
            ensure!(r.to_bits() == want, "bit_reduce_exp({b:08x}, {d}) = {:08x}, want {want:08x}", r.to_bits());
            let u = bit_reduce_exp_unchecked(x, d).to_bits();
            ensure!(u == want, "bit_reduce_exp_unchecked({b:08x}, {d}) = {u:08x}, want {want:08x}");
        }
        Err(OverBitReduction) => ensure!(d > 23, "bit_reduce_exp({b:08x}, {d}) reported over-reduction"),
        Err(e) => return fail(format!("bit_reduce_exp({b:08x}, {d}) failed with {}", name(&e))),
    }
    Ok(())
}
fn exponential(s: &mut Src, cx: &mut Ctx) -> Res {
    let b = s.f32_any().to_bits();
    let d = if s.chance(1, 4) { s.below(256) as u8 } else { s.usize_in(0, 26) as u8 };
    cx.note(|| format!("bit_reduce_exp({b:08x}, {d})"));
    cx.nontrivial_if(d > 0);
    cx.label_if(d > 23, "over-reduction");
    exp_check(b, d)
}
/// Every depth with evenly spread inputs.
fn grid(i: u64) -> Result<bool, Fail> {
    let d = (i % 31) as u8;
    let b = ((i / 31) as u32).wrapping_mul(0x9E37_79B1);
    let x = f32::from_bits((b & 0x8000_0000) | (b & 0x7FFF_FFFF) % 0x3F80_0001);
    let r = bit_reduce_unchecked(x, d);
    ensure!(r as f64 == linear(x, d), "bit_reduce({x:?}, {d}) = {r:?}, want {:?}", linear(x, d));
    if d <= 23 {
        exp_check(b, d)?;
    }
    Ok(d > 0)
}

fn main() {
    pbt::main(
        "C19",
        &[
            rand("linear", 8_000_000, 100_000_000, lin),
            rand("arguments", 2_000_000, 20_000_000, lin_args),
            rand("exponential", 4_000_000, 50_000_000, exponential),
            sweep("grid", 1 << 26, 31 << 32, grid),
        ],
    );
}
