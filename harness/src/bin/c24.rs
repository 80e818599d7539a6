//! C24: sinc and the sine integral are accurate.
use embedded_audio_tools::float::AdditionalF32Ext;
use pbt::num::si;
use pbt::*;

fn sinc_ok(x: f32) -> Res {
    let v = x.sinc();
    if x == 0.0 {
        ensure!(v == 1.0, "sinc({x:?}) = {v:?}");
        return Ok(());
    }
    let (got, want) = (v as f64 * x as f64, (x as f64).sin());
    let tol = 1.7e-4 + 2.5e-7 * x.abs() as f64;
    ensure!((got - want).abs() <= tol, "sinc({x:?}) = {v:?}: times x gives {got}, sin(x) is {want}");
    Ok(())
}
fn arg(s: &mut Src, lim: f32) -> f32 {
    let v = match s.weighted(&[4, 2, 2, 1]) {
        0 => s.f32_in(0.0, lim),
        1 => s.f32_log(1e-4, lim),
        2 => (s.usize_in(0, (lim / 0.785) as usize) as f32 * std::f32::consts::FRAC_PI_4).min(lim),
        _ => s.f32_log(1e-44, 1.0),
    };
    v * s.pick(&[1.0f32, -1.0])
}
fn sinc(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = if s.chance(1, 4) { arg(s, 1e5) } else { arg(s, 50.0) };
    cx.note(|| format!("sinc({x:?})"));
    cx.nontrivial_if(x != 0.0);
    sinc_ok(x)?;
    ensure!(0f32.sinc() == 1.0 && (-0f32).sinc() == 1.0, "sinc(0) = {} / {}", 0f32.sinc(), (-0f32).sinc());
    Ok(())
}
fn integral(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = if s.chance(1, 3) { arg(s, 300.0) } else { arg(s, 50.0) };
    cx.note(|| format!("si({x:?})"));
    let (p, n) = (x.si(), (-x).si());
    let want = si(x as f64);
    ensure!((p as f64 - want).abs() <= 2e-3, "si({x:?}) = {p}, want {want}");
    ensure!((p + n).abs() <= 2e-3, "si({x:?}) = {p} but si({:?}) = {n}", -x);
    cx.nontrivial_if(x.abs() > 1e-3);
    Ok(())
}
/// Evenly over [-50, 50].
fn dense(i: u64) -> Result<bool, Fail> {
    let u = (i as u32).wrapping_mul(0x9E37_79B1) as f64 / 4294967296.0;
    sinc_ok(((u * 2.0 - 1.0) * 50.0) as f32)?;
    Ok(true)
}

fn main() {
    pbt::main(
        "C24",
        &[
            rand("sinc", 8_000_000, 100_000_000, sinc),
            rand("integral", 240_000, 3_000_000, integral),
            sweep("dense", 1 << 25, 1 << 32, dense),
        ],
    );
}
