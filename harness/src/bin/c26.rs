//! C26: panning distributes signal by the right law and rejects bad positions.
use embedded_audio_tools::errors::PanningError;
use embedded_audio_tools::stereo::*;
use pbt::num::U;
use pbt::*;

fn pos(s: &mut Src) -> f32 {
    match s.weighted(&[5, 2, 1]) {
        0 => s.f32_in(-1.0, 1.0),
        1 => s.i64_in(-64, 64) as f32 / 64.0,
        _ => {
            let x = 1.0 - s.f32_log(1e-7, 1.0);
            x * s.pick(&[1.0f32, -1.0])
        }
    }
}
fn level(s: &mut Src) -> f32 {
    let v = match s.weighted(&[5, 2, 1]) {
        0 => s.sample(),
        1 => s.f32_log(1e-30, 1e30) * s.pick(&[1.0f32, -1.0]),
        _ => s.i64_in(-1000, 1000) as f32,
    };
    // a gain cannot be read off a denormal sample
    if v.abs() < 1e-30 {
        0.0
    } else {
        v
    }
}
/// How far a gain moves when the share under the root is off by an ulp of 1:
/// next to a hard pan that is what single precision leaves.
fn slack(w: f64) -> f64 {
    (w * w + 2.0 * U).sqrt() * 1.065 - w * 1.065 + 1e-9
}
/// The left (sign -1) or right (+1) equal-power gain and how far the library's root may be off.
fn power_ok(gain: f64, a: f32, sign: f64, what: &str) -> Res {
    let w = ((1.0 + sign * a as f64) * 0.5).max(0.0).sqrt();
    let e = 1e-3 * w + slack(w);
    ensure!(gain >= w - e && gain <= w * 1.065 + e, "{what}: gain {gain} at position {a:?}, want {w}");
    Ok(())
}
fn same(a: (f32, f32), b: (f32, f32)) -> bool {
    a.0.to_bits() == b.0.to_bits() && a.1.to_bits() == b.1.to_bits()
}

fn mono(s: &mut Src, cx: &mut Ctx) -> Res {
    let (a, x) = (pos(s), level(s));
    cx.note(|| format!("mono_pan({a:?}, {x:?})"));
    let r = match mono_pan(a, x) {
        Ok(r) => r,
        Err(e) => return fail(format!("mono_pan({a:?}, {x:?}) failed with {e:?}")),
    };
    let u = mono_pan_unchecked(a, x);
    ensure!(same(r, u), "mono_pan({a:?}, {x:?}) = {r:?}, unchecked {u:?}");
    let (l, ri) = (x as f64 * (1.0 - a as f64) * 0.5, x as f64 * (1.0 + a as f64) * 0.5);
    let e = 3.0 * U * x.abs() as f64 + 1e-40;
    ensure!((r.0 as f64 - l).abs() <= e && (r.1 as f64 - ri).abs() <= e, "mono_pan({a:?}, {x:?}) = {r:?}, want ({l}, {ri})");
    ensure!((r.0 as f64 + r.1 as f64 - x as f64).abs() <= 2.0 * e, "mono_pan({a:?}, {x:?}) = {r:?} does not add up");
    let m = mono_pan_unchecked(-a, x);
    ensure!((m.0 as f64 - r.1 as f64).abs() <= e && (m.1 as f64 - r.0 as f64).abs() <= e, "mono_pan is not mirror symmetric: {a:?} -> {r:?}, {:?} -> {m:?}", -a);
    let b = pos(s);
    let q = mono_pan_unchecked(b, 1.0);
    let p = mono_pan_unchecked(a, 1.0);
    ensure!(if a <= b { p.0 >= q.0 && p.1 <= q.1 } else { p.0 <= q.0 && p.1 >= q.1 }, "mono gains are not monotone: {a:?} -> {p:?}, {b:?} -> {q:?}");
    cx.nontrivial_if(a != 0.0 && x != 0.0);
    Ok(())
}

fn stereo(s: &mut Src, cx: &mut Ctx) -> Res {
    let (a, l, r) = (pos(s), level(s), level(s));
    cx.note(|| format!("stereo_pan({a:?}, ({l:?}, {r:?}))"));
    let o = match stereo_pan(a, (l, r)) {
        Ok(o) => o,
        Err(e) => return fail(format!("stereo_pan({a:?}, ({l:?}, {r:?})) failed with {e:?}")),
    };
    let u = stereo_pan_unchecked(a, (l, r));
    ensure!(same(o, u), "stereo_pan({a:?}, ({l:?}, {r:?})) = {o:?}, unchecked {u:?}");
    // law
    for (ch, x, y, sg) in [("left", l, o.0, -1.0), ("right", r, o.1, 1.0)] {
        if x == 0.0 {
            ensure!(y == 0.0, "stereo_pan({a:?}, ({l:?}, {r:?})) = {o:?}: silence in, {ch} out");
        } else {
            power_ok(y as f64 / x as f64, a, sg, ch)?;
        }
    }
    // each channel on its own
    for other in [level(s), f32::NAN, f32::INFINITY] {
        let p = stereo_pan_unchecked(a, (l, other)).0;
        let q = stereo_pan_unchecked(a, (other, r)).1;
        ensure!(p.to_bits() == o.0.to_bits() && q.to_bits() == o.1.to_bits(), "stereo_pan({a:?}, ({l:?}, {r:?})): a channel depends on the other one ({other:?})");
    }
    // mirrored, and monotone
    let m = stereo_pan_unchecked(-a, (r, l));
    let e = |x: f32, y: f32, sg: f64| 4.0 * U * y.abs() as f64 + 2.0 * x.abs() as f64 * slack(((1.0 + sg * a as f64) * 0.5).max(0.0).sqrt()) + 1e-18;
    ensure!((m.0 as f64 - o.1 as f64).abs() <= e(r, o.1, 1.0) && (m.1 as f64 - o.0 as f64).abs() <= e(l, o.0, -1.0), "stereo_pan is not mirror symmetric: {o:?} and {m:?} at {a:?}");
    let b = pos(s);
    let (p, q) = (stereo_pan_unchecked(a, (1.0, 1.0)), stereo_pan_unchecked(b, (1.0, 1.0)));
    ensure!(if a <= b { p.0 >= q.0 && p.1 <= q.1 } else { p.0 <= q.0 && p.1 >= q.1 }, "stereo gains are not monotone: {a:?} -> {p:?}, {b:?} -> {q:?}");
    cx.nontrivial_if(a != 0.0 && l != 0.0 && r != 0.0 && l != r);
    Ok(())
}

fn crossfade(s: &mut Src, cx: &mut Ctx) -> Res {
    let (a, l, r) = (pos(s), level(s), level(s));
    cx.note(|| format!("crossfade({a:?}, ({l:?}, {r:?}))"));
    let o = crossfade_correlated_unchecked(a, (l, r));
    let want = l as f64 * (1.0 - a as f64) * 0.5 + r as f64 * (1.0 + a as f64) * 0.5;
    let e = 4.0 * U * l.abs().max(r.abs()) as f64 + 1e-40;
    ensure!((o as f64 - want).abs() <= e, "crossfade({a:?}, ({l:?}, {r:?})) = {o:?}, want {want}");
    let m = crossfade_correlated_unchecked(-a, (r, l));
    ensure!((o as f64 - m as f64).abs() <= e, "crossfade is not mirror symmetric: {o:?} and {m:?}");
    cx.nontrivial_if(l != r && a != 0.0);
    Ok(())
}

fn positions(s: &mut Src, cx: &mut Ctx) -> Res {
    let a = match s.weighted(&[3, 3, 2]) {
        0 => s.f32_any(),
        1 => f32::from_bits(0x3F80_0000 + s.below(9) as u32 - 4) * s.pick(&[1.0f32, -1.0]),
        _ => s.pick(&[f32::INFINITY, f32::NEG_INFINITY, 1.0, -1.0, 1.0000001, -1.0000001, 2.0, -2.0]),
    };
    if a.is_nan() {
        return Ok(());
    }
    cx.note(|| format!("position {a:?}"));
    let want = if a < -1.0 {
        Some(PanningError::TooLeft)
    } else if a > 1.0 {
        Some(PanningError::TooRight)
    } else {
        None
    };
    let m = mono_pan(a, 0.5).err();
    ensure!(m == want, "mono_pan at {a:?}: {m:?}, want {want:?}");
    let m = stereo_pan(a, (0.5, 0.25)).err();
    ensure!(m == want, "stereo_pan at {a:?}: {m:?}, want {want:?}");
    cx.nontrivial_if(want.is_some());
    Ok(())
}
/// Gains over evenly spread positions.
fn gains(i: u64) -> Result<bool, Fail> {
    let u = (i as u32).wrapping_mul(0x9E37_79B1) as f64 / 2147483648.0 - 1.0;
    let a = u as f32;
    let g = stereo_pan_unchecked(a, (1.0, 1.0));
    power_ok(g.0 as f64, a, -1.0, "left")?;
    power_ok(g.1 as f64, a, 1.0, "right")?;
    let b = f32::from_bits(a.to_bits() + (a.abs() < 1.0) as u32);
    let h = stereo_pan_unchecked(b, (1.0, 1.0));
    let (p, q) = if a <= b { (g, h) } else { (h, g) };
    ensure!(p.0 >= q.0 && p.1 <= q.1, "stereo gains are not monotone between {a:?} ({g:?}) and {b:?} ({h:?})");
    Ok(true)
}

fn main() {
    pbt::main(
        "C26",
        &[
            rand("mono", 6_000_000, 80_000_000, mono),
            rand("stereo", 6_000_000, 80_000_000, stereo),
            rand("crossfade", 4_000_000, 50_000_000, crossfade),
            rand("positions", 2_000_000, 20_000_000, positions),
            sweep("gains", 1 << 24, 1 << 32, gains),
        ],
    );
}
