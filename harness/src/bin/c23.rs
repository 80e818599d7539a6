//! C23: hyperbolic and tangent approximations keep accuracy and symmetry.
use embedded_audio_tools::float::AdditionalF32Ext;
use pbt::num::U;
use pbt::*;
use std::f64::consts::FRAC_PI_2;

/// The library offers the same names as std: always ask the library.
fn sinh(x: f32) -> f32 {
    AdditionalF32Ext::sinh(&x)
}
fn cosh(x: f32) -> f32 {
    AdditionalF32Ext::cosh(&x)
}
fn tanh(x: f32) -> f32 {
    AdditionalF32Ext::tanh(&x)
}
fn tan(x: f32) -> f32 {
    AdditionalF32Ext::fast_tan(&x)
}

fn hyp_ok(x: f32) -> Res {
    let (s, c) = (sinh(x), cosh(x));
    let (ws, wc) = ((x as f64).sinh(), (x as f64).cosh());
    ensure!((s as f64 - ws).abs() <= 0.002 * wc, "sinh({x:?}) = {s}, want {ws}");
    ensure!((c as f64 - wc).abs() <= 0.002 * wc, "cosh({x:?}) = {c}, want {wc}");
    ensure!(c >= 0.998, "cosh({x:?}) = {c}");
    let (ns, nc) = (sinh(-x), cosh(-x));
    // odd and even, up to rounding
    ensure!((s as f64 + ns as f64).abs() <= 4.0 * U * wc, "sinh({x:?}) = {s} but sinh({:?}) = {ns}", -x);
    ensure!((c as f64 - nc as f64).abs() <= 4.0 * U * wc, "cosh({x:?}) = {c} but cosh({:?}) = {nc}", -x);
    Ok(())
}
fn tan_ok(x: f32) -> Res {
    let t = tan(x);
    let w = (x as f64).tan();
    let a = x.abs() as f64;
    if a <= 1.0 {
        let tol = w.abs() * (1e-6 + 1e-3 * a.powi(17)) + 1e-44;
        ensure!((t as f64 - w).abs() <= tol, "fast_tan({x:?}) = {t}, want {w}");
    }
    if a < FRAC_PI_2 {
        // what the series leaves out has the sign of the argument
        let (lo, hi) = (series(a) * (1.0 - 1e-5) - 1e-44, w.abs() * (1.0 + 1e-5) + 1e-44);
        let v = if x < 0.0 { -t } else { t } as f64;
        ensure!(v >= lo && v <= hi, "fast_tan({x:?}) = {t}, not between its series {lo} and the tangent {hi}");
    }
    odd(x)
}
/// The first eight terms of the tangent's series.
fn series(x: f64) -> f64 {
    let q = x * x;
    [929569.0 / 638512875.0, 21844.0 / 6081075.0, 1382.0 / 155925.0, 62.0 / 2835.0, 17.0 / 315.0, 2.0 / 15.0, 1.0 / 3.0, 1.0].iter().fold(0.0, |s, c| s * q + c) * x
}
fn odd(x: f32) -> Res {
    let (t, n) = (tan(x), tan(-x));
    let same = if t.is_finite() { (t as f64 + n as f64).abs() <= 8.0 * U * (t as f64).abs() + 3e-45 } else { t == -n || t.is_nan() && n.is_nan() };
    ensure!(same, "fast_tan({x:?}) = {t} but fast_tan({:?}) = {n}", -x);
    Ok(())
}
/// Any argument: odd.
fn tangent_far(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = match s.weighted(&[2, 2, 1]) {
        0 => s.f32_in(-20.0, 20.0),
        1 => mag(s, 1000.0),
        _ => s.f32_finite(),
    };
    cx.note(|| format!("{x:?}"));
    odd(x)?;
    cx.nontrivial_if(x.abs() as f64 > FRAC_PI_2);
    Ok(())
}
fn tanh_ok(x: f32) -> Res {
    let t = tanh(x) as f64;
    let a = x as f64;
    let (p, q) = (a / (1.0 + a * a / 2.0), a.tanh());
    let (lo, hi) = (p.min(q), p.max(q));
    // the exponentials are summed up to 1+x^2/2, then differenced
    let e = 4.0 * U * (1.0 + a.abs()).min(10.0);
    ensure!(t >= lo - e && t <= hi + e, "tanh({x:?}) = {t}, not between {lo} and {hi}");
    ensure!(t.abs() < 1.0, "tanh({x:?}) = {t}");
    let n = tanh(-x) as f64;
    ensure!((t + n).abs() <= 2.0 * e, "tanh({x:?}) = {t} but tanh({:?}) = {n}", -x);
    Ok(())
}
fn mag(s: &mut Src, lim: f32) -> f32 {
    let v = match s.weighted(&[12, 8, 4, 1, 1]) {
        0 => s.f32_in(0.0, lim),
        1 => s.f32_log(1e-7, lim),
        2 => s.usize_in(0, lim as usize) as f32,
        3 => s.f32_log(1e-38, lim),
        _ => {
            use std::f32::consts::*;
            let v = s.pick(&[FRAC_PI_4, LN_2, SQRT_2, FRAC_1_SQRT_2, FRAC_PI_3, FRAC_PI_6, FRAC_PI_8, FRAC_PI_2, PI, TAU, E, LN_10]);
            if v <= lim {
                v
            } else {
                v / 8.0
            }
        }
    };
    v * s.pick(&[1.0f32, -1.0])
}

fn hyperbolic(s: &mut Src, cx: &mut Ctx) -> Res {
    let (mut x, mut y) = (mag(s, 88.0), mag(s, 88.0));
    if s.chance(1, 3) {
        y = x * s.f32_in(1.0, 1.05);
        y = y.clamp(-88.0, 88.0);
    }
    if x > y {
        (x, y) = (y, x);
    }
    cx.note(|| format!("{x:?} <= {y:?}"));
    hyp_ok(x)?;
    hyp_ok(y)?;
    // increasing, apart from the ripple of the exponential (measured 1.9e-5)
    let (p, q) = (sinh(x) as f64, sinh(y) as f64);
    let e = 1e-4 * (x as f64).cosh();
    ensure!(q - p >= -e, "sinh({x:?}) = {p} but sinh({y:?}) = {q}");
    cx.nontrivial_if(x < y);
    Ok(())
}
fn tangent(s: &mut Src, cx: &mut Ctx) -> Res {
    let lim = (FRAC_PI_2 as f32) - 1e-4;
    let (mut x, mut y) = (mag(s, 1.0), mag(s, 1.0));
    if s.chance(1, 3) {
        (x, y) = (s.f32_in(-lim, lim), s.f32_in(-lim, lim));
    }
    if s.chance(1, 3) {
        y = (x + s.f32_log(1e-6, 0.1)).min(lim);
    }
    if x > y {
        (x, y) = (y, x);
    }
    cx.note(|| format!("{x:?} <= {y:?}"));
    tan_ok(x)?;
    tan_ok(y)?;
    let (p, q) = (tan(x) as f64, tan(y) as f64);
    let e = 8.0 * U * (p.abs() + q.abs());
    ensure!(q - p >= -e, "fast_tan({x:?}) = {p} but fast_tan({y:?}) = {q}");
    cx.nontrivial_if(x < y);
    Ok(())
}
fn hyp_tangent(s: &mut Src, cx: &mut Ctx) -> Res {
    let x = match s.weighted(&[3, 2, 1]) {
        0 => mag(s, 4.0),
        1 => mag(s, 1000.0),
        _ => s.f32_log(1e-9, 1e8) * s.pick(&[1.0f32, -1.0]),
    };
    cx.note(|| format!("{x:?}"));
    tanh_ok(x)?;
    cx.nontrivial_if(x != 0.0);
    Ok(())
}
/// Evenly spread arguments, each with a close neighbour.
fn dense(i: u64) -> Result<bool, Fail> {
    let u = (i as u32).wrapping_mul(0x9E37_79B1) as f64 / 4294967296.0;
    let x = (u * 2.0 - 1.0) as f32;
    tan_ok(x)?;
    tanh_ok(x * 6.0)?;
    hyp_ok(x * 88.0)?;
    let a = x * 1.57;
    let b = a + 1e-4;
    ensure!(tan(b) as f64 - tan(a) as f64 >= -16.0 * U * (tan(b).abs().max(tan(a).abs())) as f64, "fast_tan({a:?}) = {} but fast_tan({b:?}) = {}", tan(a), tan(b));
    Ok(true)
}

fn main() {
    pbt::main(
        "C23",
        &[
            rand("hyperbolic", 4_000_000, 50_000_000, hyperbolic),
            rand("tangent_far", 400_000, 8_000_000, tangent_far),
            rand("tangent", 4_000_000, 50_000_000, tangent),
            rand("tanh", 4_000_000, 50_000_000, hyp_tangent),
            sweep("dense", 1 << 22, 1 << 30, dense),
        ],
    );
}
