//! C11: bell and low-shelf designs have the specified gain, cut inverting boost.
use pbt::filt::*;
use pbt::*;
use std::f64::consts::{FRAC_1_PI, PI};

fn quality(s: &mut Src) -> f32 {
    if s.chance(1, 4) {
        s.pick(&[0.707_106_77f32, 1.0, 0.5, 2.0, 10.0])
    } else {
        s.f32_log(0.05, 100.0)
    }
}
fn gain(s: &mut Src) -> f32 {
    match s.weighted(&[4, 2, 2, 1]) {
        0 => s.f32_log(1.0, 30.0),
        1 => s.f32_log(0.05, 1.0),
        2 => s.f32_log(1e-3, 2e3),
        _ => s.pick(&[1.0f32, 2.0, 4.0, 0.5]),
    }
}

fn design(s: &mut Src, kind: Kind, lo: f64, hi: f64) -> Design {
    let (fc, sr) = rates(s, lo, hi);
    let g = gain(s);
    let g = if s.chance(1, 2) { -g } else { g };
    Design { kind, fc, q: quality(s), gain: g, sr }
}

/// The general entry point equals the dedicated one for the sign of the gain, whatever was designed before.
fn entry_points(d: &Design, s: &mut Src) -> Res {
    let mut ded = used(s, d);
    match (d.kind, d.gain > 0.0) {
        (Kind::Bell, true) => ded.bell_boost_only(d.fc, d.q, d.gain, d.sr),
        (Kind::Bell, false) => ded.bell_cut_only(d.fc, d.q, d.gain, d.sr),
        (_, true) => ded.low_shelf_boost_only(d.fc, d.q, d.gain, d.sr),
        (_, false) => ded.low_shelf_cut_only(d.fc, d.q, d.gain, d.sr),
    }
    let mut gen = used(s, d);
    d.apply(&mut gen);
    ensure!(bits(&gen) == bits(&d.fresh()), "{d:?} depends on what was designed before: {:?} instead of {:?}", k64(&gen), k64(&d.fresh()));
    let (a, b) = (k64(&ded), k64(&gen));
    for i in 0..5 {
        ensure!((a[i] - b[i]).abs() <= 1e-6 * a[i].abs().max(1.0), "{d:?}: the dedicated entry point gives {} = {}, the general one {}", NAMES[i], a[i], b[i]);
    }
    Ok(())
}

/// cut(z) * boost(z) = 1
fn inverse(d: &Design) -> Res {
    let up = Design { gain: d.gain.abs(), ..*d };
    let down = Design { gain: -d.gain.abs(), ..*d };
    let (u, c) = (k64(&up.fresh()), k64(&down.fresh()));
    let want = [1.0 / u[0], u[3] / u[0], u[4] / u[0], u[1] / u[0], u[2] / u[0]];
    let m = want.iter().fold(1.0f64, |m, v| m.max(v.abs())) * u.iter().fold(1.0f64, |m, v| m.max(v.abs())) / u[0].abs().min(1.0);
    for i in 0..5 {
        let tol = 2e-6 * m;
        ensure!((c[i] - want[i]).abs() <= tol, "{d:?}: cut has {} = {}, the inverse of the boost needs {} (within {tol:e})", NAMES[i], c[i], want[i]);
    }
    Ok(())
}

fn finite(d: &Design, c: &K) -> Res {
    for i in 0..5 {
        ensure!(c[i].is_finite(), "{d:?}: {} is {}", NAMES[i], c[i]);
    }
    Ok(())
}

fn bell_design(s: &mut Src, cx: &mut Ctx) -> Res {
    let d = design(s, Kind::Bell, 1e-4, 0.4999);
    cx.note(|| format!("{d:?}"));
    entry_points(&d, s)?;
    let c = k64(&d.fresh());
    finite(&d, &c)?;
    let (x, q, g) = (d.x(), d.q as f64, d.gain.abs() as f64);
    let cut = d.gain < 0.0;
    if x <= 1.0 {
        if let Err(e) = matches(&c, x, 4e-6, 1e-6, |k| bell(k, q, g, cut)) {
            return fail(format!("{d:?}: {e}"));
        }
        // gain at fc
        if d.fc / d.sr > 0.005 && d.q < 20.0 {
            let at = response(&c, 2.0 * x).abs();
            let want = if cut { 1.0 / g } else { g };
            let k = x.tan();
            let amp = 3e-6 * (1.0 + k / q + k * k) * q / k * (1.0 + 1.0 / k) * (1.0 + g + 1.0 / g) + 4.0 * q * tan_err(x) * (1.0 + k) * (1.0f64).max(1.0 / g);
            ensure!((at - want).abs() <= (amp + 1e-5) * (want + 1.0), "{d:?}: gain {at} at fc instead of {want} (amp {amp:e})");
            cx.label("gain at fc");
        }
    }
    // unit gain at DC and Nyquist, quality and gain symmetric for any cutoff
    let [b0, b1, b2, a1, a2] = c;
    let m = c.iter().fold(1.0f64, |m, v| m.max(v.abs()));
    ensure!((b1 - a1).abs() <= 1e-6 * m, "{d:?}: b1 {b1} and a1 {a1} differ");
    ensure!((b0 + b2 - 1.0 - a2).abs() <= 2e-6 * m, "{d:?}: gain at DC and Nyquist is not 1");
    // (b0 - b2) : (1 - a2) is the gain
    let (n, dn) = (b0 - b2, 1.0 - a2);
    let w = if cut { n - dn / g } else { n - dn * g };
    ensure!(w.abs() <= 3e-6 * m * (1.0 + g + 1.0 / g), "{d:?}: gain comes out as {}", n / dn);
    inverse(&d)?;
    cx.label_if(cut, "cut");
    cx.label_if(!cut, "boost");
    cx.nontrivial_if(g != 1.0);
    Ok(())
}

/// |gain| = 1 is the identity.
fn unity(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut d = design(s, Kind::Bell, 1e-4, 0.4999);
    d.gain = if d.gain < 0.0 { -1.0 } else { 1.0 };
    let c = k64(&d.fresh());
    let e = 1e-6;
    ensure!((c[0] - 1.0).abs() <= e && (c[1] - c[3]).abs() <= e && (c[2] - c[4]).abs() <= e, "{d:?} is not the identity: {c:?}");
    let mut b = Bq::new(d.fresh());
    if d.fc / d.sr > 0.01 && d.q < 20.0 {
        for i in 0..40 {
            let x = s.sample();
            let y = b.process(x);
            ensure!((x - y).abs() <= 2e-3, "{d:?}: sample {i} comes out as {y} instead of {x}");
        }
    }
    cx.note(|| format!("{d:?}"));
    cx.nontrivial();
    Ok(())
}

fn shelf_design(s: &mut Src, cx: &mut Ctx) -> Res {
    let d = design(s, Kind::Shelf, 1e-3, 0.4999);
    cx.note(|| format!("{d:?}"));
    entry_points(&d, s)?;
    inverse(&d)?;
    let c = k64(&d.fresh());
    finite(&d, &c)?;
    let (x, q, g) = (d.x(), d.q as f64, d.gain.abs() as f64);
    let cut = d.gain < 0.0;
    let [b0, b1, b2, a1, a2] = c;
    // side with the plain second-order denominator, side with the gain; same a0 on both
    let (p, n) = if cut { ([b0, b1, b2], [1.0, a1, a2]) } else { ([1.0, a1, a2], [b0, b1, b2]) };
    let ny = (p[0] - p[1] + p[2], n[0] - n[1] + n[2]);
    let dc = (p[0] + p[1] + p[2], n[0] + n[1] + n[2]);
    let m = c.iter().fold(1.0f64, |m, v| m.max(v.abs()));
    ensure!((ny.0 - ny.1).abs() <= 3e-6 * m, "{d:?}: gain at Nyquist is {}/{}", ny.1, ny.0);
    ensure!((dc.1 - g * dc.0).abs() <= 3e-6 * m * (1.0 + g), "{d:?}: gain at DC is {} (or its inverse) instead of {g}", dc.1 / dc.0);
    // recover k, quality and the shelf's own damping from ny = 4/a0
    let k2 = dc.0 / ny.0;
    let kq = 2.0 * (p[0] - p[2]) / ny.0;
    let sh = 2.0 * (n[0] - n[2]) / ny.0;
    let err = 3e-6 * m / ny.0;
    let (k, dk) = if x <= 1.0 { (x.tan(), tan_err(x)) } else { (k2.sqrt(), 1e-9) };
    ensure!((k2 - k * k).abs() <= 2.5 * dk * k * k + 2.0 * err, "{d:?}: warped frequency squared is {k2} instead of {}", k * k);
    if x > 1.0 {
        ensure!(k >= x * (1.0 - 1e-3) && k <= x.tan() * (1.0 + 1e-3), "{d:?}: warped frequency {k} outside {x}..{}", x.tan());
    }
    ensure!((kq - k / q).abs() <= (dk * 2.0 + 1e-5) * k / q + 2.0 * err * (1.0 + k2), "{d:?}: k/q comes out as {kq} instead of {}", k / q);
    // the shelf's damping sqrt(2g)k, up to the library's square root which reads up to 6.1 % high
    let t = (2.0 * g).sqrt() * k;
    ensure!(sh >= t * (0.998 - dk) - 2.0 * err * (1.0 + k2) && sh <= t * (1.063 + dk) + 2.0 * err * (1.0 + k2), "{d:?}: shelf damping {sh} instead of {t}");
    cx.label_if(cut, "cut");
    cx.label_if(!cut, "boost");
    cx.nontrivial_if(g != 1.0);
    Ok(())
}

/// The running filters.
fn measured(s: &mut Src, cx: &mut Ctx) -> Res {
    let kind = s.pick(&[Kind::Bell, Kind::Shelf]);
    let (fc, sr) = rates(s, 0.02, 0.3);
    let g = s.f32_log(0.5, 8.0);
    let d = Design { kind, fc, q: s.f32_log(0.4, 5.0), gain: if s.chance(1, 2) { -g } else { g }, sr };
    cx.note(|| format!("{d:?}"));
    let n = 5000;
    let g = if d.gain < 0.0 { 1.0 / g as f64 } else { g as f64 };
    let dc = measure(d.fresh(), 0.0, n).abs();
    let ny = measure(d.fresh(), PI, n).abs();
    let t = 4e-3 * (1.0 + g);
    ensure!((ny - 1.0).abs() <= t, "{d:?}: measured gain {ny} at Nyquist");
    if kind == Kind::Bell {
        let at = measure(d.fresh(), 2.0 * d.x(), n).abs();
        ensure!((dc - 1.0).abs() <= t, "{d:?}: measured gain {dc} at DC");
        ensure!((at - g).abs() <= t, "{d:?}: measured gain {at} at fc instead of {g}");
    } else {
        ensure!((dc - g).abs() <= t, "{d:?}: measured gain {dc} at DC instead of {g}");
    }
    // cut after boost gives the input back
    let mut up = Bq::new(Design { gain: d.gain.abs(), ..d }.fresh());
    let mut down = Bq::new(Design { gain: -d.gain.abs(), ..d }.fresh());
    for i in 0..200 {
        let x = s.sample();
        let y = down.process(up.process(x));
        ensure!((x - y).abs() <= 3e-3, "{d:?}: boost then cut turns sample {i} from {x} into {y}");
    }
    cx.nontrivial();
    Ok(())
}

fn main() {
    let _ = FRAC_1_PI;
    pbt::main(
        "C11",
        &[
            rand("bell", 1_500_000, 50_000_000, bell_design),
            rand("unity", 200_000, 5_000_000, unity),
            rand("shelf", 1_500_000, 50_000_000, shelf_design),
            rand("measured", 3_000, 100_000, measured),
        ],
    );
}
