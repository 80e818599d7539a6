//! C27: clippers never panic and confine every sample to -1..1.
use embedded_audio_tools::dynamics::*;
use pbt::*;

fn sample(s: &mut Src) -> f32 {
    let x = match s.weighted(&[3, 3, 2, 2]) {
        0 => s.f32_in(-2.0, 2.0),
        1 => s.f32_any(),
        2 => f32::from_bits(0x3F80_0000 + s.below(9) as u32 - 4) * s.pick(&[1.0f32, -1.0]),
        _ => s.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 1.0, -1.0, 0.0, -0.0, f32::MIN_POSITIVE]),
    };
    if x.is_nan() {
        0.5
    } else {
        x
    }
}
const NAMES: [&str; 4] = ["digital_clip", "tanh_clip", "poly_clip", "sigmoid_clip"];
fn clip(k: usize, x: f32, p: f32) -> f32 {
    match k {
        0 => digital_clip(x),
        1 => tanh_clip(x),
        2 => poly_clip(x, p),
        _ => sigmoid_clip(x, p),
    }
}
fn ok(k: usize, x: f32, p: f32) -> Res {
    let name = NAMES[k];
    let r = match catching(|| clip(k, x, p)) {
        Ok(r) => r,
        Err((loc, msg)) => {
            let sig = (msg.contains("not yet implemented") && (-1.0..=1.0).contains(&x)).then(|| format!("{name}:todo-panic"));
            return Err(Fail { msg: format!("{name}({x:?}, parameter {p:?}) panicked: {msg} (at {loc})"), sig });
        }
    };
    ensure!((-1.0..=1.0).contains(&r), "{name}({x:?}, parameter {p:?}) = {r:?}");
    if x > 1.0 {
        ensure!(r == 1.0, "{name}({x:?}, parameter {p:?}) = {r:?}");
    } else if x < -1.0 {
        ensure!(r == -1.0, "{name}({x:?}, parameter {p:?}) = {r:?}");
    } else if k == 0 {
        ensure!(r == x, "{name}({x:?}) = {r:?}");
    }
    Ok(())
}

fn digital(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = sample(s);
    cx.note(|| format!("digital_clip({x:?})"));
    cx.nontrivial_if(x.abs() > 0.5);
    ok(0, x, 0.0)
}
/// Every float.
fn digital_all(i: u64) -> Result<bool, Fail> {
    let x = f32::from_bits((i as u32).wrapping_mul(0x9E37_79B1));
    if x.is_nan() {
        return Ok(false);
    }
    ok(0, x, 0.0)?;
    Ok(x.abs() > 0.5)
}
/// Samples beyond full scale, all clippers.
fn saturation(s: &mut Src, cx: &mut Ctx) -> Res {
    let k = s.usize_in(0, 3);
    let x = sample(s);
    if (-1.0..=1.0).contains(&x) {
        return Ok(());
    }
    let p = s.f32_any();
    cx.note(|| format!("{}({x:?}, parameter {p:?})", NAMES[k]));
    cx.nontrivial();
    ok(k, x, p)
}
/// Samples within full scale, one clipper at a time.
fn inside(k: usize, s: &mut Src, cx: &mut Ctx) -> Res {
    let x = sample(s).clamp(-1.0, 1.0);
    let p = s.f32_in(0.0, 20.0);
    cx.note(|| format!("{}({x:?}, parameter {p:?})", NAMES[k]));
    cx.nontrivial();
    ok(k, x, p)
}
fn tanh(s: &mut Src, cx: &mut Ctx) -> Res {
    inside(1, s, cx)
}
fn poly(s: &mut Src, cx: &mut Ctx) -> Res {
    inside(2, s, cx)
}
fn sigmoid(s: &mut Src, cx: &mut Ctx) -> Res {
    inside(3, s, cx)
}

fn main() {
    pbt::main(
        "C27",
        &[
            rand("digital", 2_000_000, 20_000_000, digital),
            sweep("digital_all", 1 << 28, 1 << 32, digital_all),
            rand("saturation", 4_000_000, 50_000_000, saturation),
            rand("tanh", 2_000, 20_000, tanh),
            rand("poly", 2_000, 20_000, poly),
            rand("sigmoid", 2_000, 20_000, sigmoid),
        ],
    );
}
