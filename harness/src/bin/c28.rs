//! C28: time/sample conversions are correct and mutually inverse.
use embedded_audio_tools::float::DSPUtility;
use pbt::num::U;
use pbt::*;

const NAMES: [&str; 4] = ["samples_to_seconds", "samples_to_millis", "seconds_to_samples", "millis_to_samples"];
fn conv(k: usize, x: f32, sr: f32) -> f32 {
    match k {
        0 => x.samples_to_seconds(sr),
        1 => x.samples_to_millis(sr),
        2 => x.seconds_to_samples(sr),
        _ => x.millis_to_samples(sr),
    }
}
fn exact(k: usize, x: f32, sr: f32) -> f64 {
    let (x, sr) = (x as f64, sr as f64);
    match k {
        0 => x / sr,
        1 => x / sr * 1000.0,
        2 => x * sr,
        _ => x * sr / 1000.0,
    }
}
fn near(a: f64, b: f64, ulps: f64) -> bool {
    (a - b).abs() <= ulps * U * b.abs() + 1e-40
}
fn all(s: &mut Src, cx: &mut Ctx) -> Res {
    let sr = match s.weighted(&[3, 2, 1]) {
        0 => if s.chance(1, 12) { 1.0 } else { s.sample_rate(1.0, 400_000.0) },
        1 => s.f32_log(1.0, 1e6),
        _ => s.usize_in(1, 200_000) as f32,
    };
    let x = match s.weighted(&[3, 3, 2]) {
        0 => s.i64_in(-100_000, 100_000) as f32,
        1 => s.f32_log(1e-9, 1e9) * s.pick(&[1.0f32, -1.0]),
        _ => s.f32_in(-10.0, 10.0),
    };
    // what converts to a denormal cannot come back
    let x = if x.abs() < 1e-25 { 0.0 } else { x };
    let k = s.usize_in(0, 3);
    let y = conv(k, x, sr);
    cx.note(|| format!("{x:?}.{}({sr:?}) = {y:?}", NAMES[k]));
    let want = exact(k, x, sr);
    ensure!(near(y as f64, want, 5.0), "{x:?}.{}({sr:?}) = {y:?}, want {want}", NAMES[k]);
    let back = conv((k + 2) % 4, y, sr);
    ensure!(near(back as f64, x as f64, 9.0), "{x:?}.{}({sr:?}) = {y:?}, converted back {back:?}", NAMES[k]);
    let n = conv(k, -x, sr);
    ensure!(near(n as f64, -(y as f64), 5.0), "{}: {x:?} -> {y:?} but {:?} -> {n:?}", NAMES[k], -x);
    let f = s.f32_in(-8.0, 8.0);
    let f = if f.abs() < 1e-10 { 0.0 } else { f };
    let z = conv(k, x * f, sr);
    ensure!(near(z as f64, y as f64 * f as f64, 12.0), "{}: {x:?} -> {y:?} but {f:?} times as much -> {z:?}", NAMES[k]);
    cx.label(NAMES[k]);
    cx.nontrivial_if(x != 0.0 && sr != 1.0);
    Ok(())
}

fn main() {
    pbt::main("C28", &[rand("all", 20_000_000, 100_000_000, all)]);
}
