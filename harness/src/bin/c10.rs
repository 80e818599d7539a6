//! C10: low-, high-, all-pass and notch designs have the specified response.
use pbt::filt::*;
use pbt::*;
use std::f64::consts::{FRAC_1_PI, PI};

fn quality(s: &mut Src) -> f32 {
    if s.chance(1, 4) {
        s.pick(&[0.707_106_77f32, 1.0, 0.5, 2.0, 10.0])
    } else {
        s.f32_log(0.05, 100.0)
    }
}

fn design(s: &mut Src, lo: f64, hi: f64) -> Design {
    let (fc, sr) = rates(s, lo, hi);
    Design { kind: s.pick(&BASIC), fc, q: quality(s), gain: 1.0, sr }
}

/// Coefficients equal the bilinear transform of the prototype.
fn formula(s: &mut Src, cx: &mut Ctx) -> Res {
    let d = design(s, 1e-4, FRAC_1_PI);
    cx.note(|| format!("{d:?}"));
    // whatever was designed or set before must not matter
    let mut c = used(s, &d);
    cx.label_if(bits(&c) != [0; 5], "redesigned");
    d.apply(&mut c);
    ensure!(bits(&c) == bits(&d.fresh()), "{d:?} depends on what was designed before: {:?} instead of {:?}", k64(&c), k64(&d.fresh()));
    let c = k64(&c);
    let x = d.x();
    if x <= 1.0 {
        if let Err(e) = matches(&c, x, 4e-6, 6e-7, |k| reference(d.kind, k, d.q as f64)) {
            return fail(format!("{d:?}: {e}"));
        }
        if d.kind == Kind::Low {
            // low cutoffs make these tiny: accurate relative to themselves
            let k = x.tan();
            let w = k * k / (1.0 + k / d.q as f64 + k * k);
            let r = 8e-6 + 2.0 * tan_err(x);
            for (i, w) in [(0, w), (1, 2.0 * w), (2, w)] {
                ensure!((c[i] - w).abs() <= r * w, "{d:?}: {} is {:e} instead of {w:e}", NAMES[i], c[i]);
            }
        }
    }
    shape(&d, &c)?;
    cx.nontrivial();
    Ok(())
}

/// What holds for every cutoff up to Nyquist.
fn shape(d: &Design, c: &K) -> Res {
    let [b0, b1, b2, a1, a2] = *c;
    for (i, v) in c.iter().enumerate() {
        ensure!(v.is_finite(), "{d:?}: {} is {v}", NAMES[i]);
    }
    let (dc_n, dc_d) = (b0 + b1 + b2, 1.0 + a1 + a2);
    let (ny_n, ny_d) = (b0 - b1 + b2, 1.0 - a1 + a2);
    let e = 1.5e-6;
    let same = |a: f64, b: f64| (a - b).abs() <= e;
    match d.kind {
        Kind::Low => {
            ensure!(same(dc_n, dc_d), "{d:?}: gain at DC is {dc_n}/{dc_d}, not 1");
            ensure!((b1 - 2.0 * b0).abs() <= e * b0.abs() && (b2 - b0).abs() <= e * b0.abs(), "{d:?}: zeros are not both at Nyquist: {b0} {b1} {b2}");
        }
        Kind::High => {
            ensure!(same(ny_n, ny_d), "{d:?}: gain at Nyquist is {ny_n}/{ny_d}, not 1");
            ensure!((b1 + 2.0 * b0).abs() <= e * b0.abs() && (b2 - b0).abs() <= e * b0.abs(), "{d:?}: zeros are not both at DC: {b0} {b1} {b2}");
        }
        Kind::All => {
            ensure!(same(b0, a2) && same(b1, a1) && same(b2, 1.0), "{d:?}: not an all-pass: {c:?}");
        }
        Kind::Notch => {
            ensure!(same(b0, b2) && same(b1, a1) && same(b0 + b2, 1.0 + a2), "{d:?}: not a notch with unit gain at DC and Nyquist: {c:?}");
        }
        _ => {}
    }
    // the warped frequency actually used, and the quality recovered with it
    let k2 = dc_d / ny_d;
    let kq = 2.0 * (1.0 - a2) / ny_d;
    if d.fc as f64 / d.sr as f64 >= 0.01 && ny_d > 1e-2 {
        let k = k2.sqrt();
        let x = d.x();
        ensure!(k >= x * (1.0 - 1e-3) && k <= x.tan() * (1.0 + 1e-3), "{d:?}: warped frequency {k} outside {x}..{}", x.tan());
        let q = k / kq;
        let err = 8e-7 / (ny_d * kq) + 4e-6 / (ny_d * k2) + 1e-4;
        ensure!((q / d.q as f64 - 1.0).abs() <= err, "{d:?}: quality comes out as {q} (within {err:e})");
    }
    Ok(())
}

fn above(s: &mut Src, cx: &mut Ctx) -> Res {
    let d = design(s, FRAC_1_PI, 0.4999);
    cx.note(|| format!("{d:?}"));
    shape(&d, &k64(&d.fresh()))?;
    cx.nontrivial();
    Ok(())
}

/// Gains at DC, fc, Nyquist computed from the coefficients.
fn gains(s: &mut Src, cx: &mut Ctx) -> Res {
    let (fc, sr) = rates(s, 0.004, FRAC_1_PI);
    let d = Design { kind: s.pick(&BASIC), fc, q: s.f32_log(0.2, 20.0), gain: 1.0, sr };
    cx.note(|| format!("{d:?}"));
    let c = k64(&d.fresh());
    let w = 2.0 * d.x();
    let (dc, at, ny) = (response(&c, 0.0).abs(), response(&c, w).abs(), response(&c, PI).abs());
    let q = d.q as f64;
    // rounding of the coefficients is amplified near the poles by 1/(1 + a1 + a2)-like factors
    let k = d.x().tan();
    let a0 = 1.0 + k / q + k * k;
    let amp = 4e-7 * a0 / (k * k);
    let amp_c = 6e-7 * a0 * q / k * (1.0 + 1.0 / k) + 3.0 * q * tan_err(d.x()) * (1.0 + k);
    let ok = |g: f64, want: f64, tol: f64| (g - want).abs() <= tol * want.max(1.0) + 1e-5;
    match d.kind {
        Kind::Low => {
            ensure!(ok(dc, 1.0, amp), "{d:?}: gain {dc} at DC");
            ensure!(ok(at, q, amp_c), "{d:?}: gain {at} at fc instead of {q} (tol {amp_c:e})");
            ensure!(ny <= 1e-5, "{d:?}: gain {ny} at Nyquist");
        }
        Kind::High => {
            ensure!(dc <= 1e-5 + amp, "{d:?}: gain {dc} at DC");
            ensure!(ok(at, q, amp_c), "{d:?}: gain {at} at fc instead of {q}");
            ensure!(ok(ny, 1.0, 1e-5), "{d:?}: gain {ny} at Nyquist");
        }
        Kind::Notch => {
            ensure!(ok(dc, 1.0, amp), "{d:?}: gain {dc} at DC");
            ensure!(at <= 1e-4 + 2.0 * amp_c, "{d:?}: gain {at} at fc instead of 0");
            ensure!(ok(ny, 1.0, 1e-5), "{d:?}: gain {ny} at Nyquist");
        }
        Kind::All => {
            for i in 0..=8 {
                let g = response(&c, PI * i as f64 / 8.0).abs();
                ensure!(ok(g, 1.0, amp + amp_c), "{d:?}: gain {g} at {i}/8 of Nyquist");
            }
            ensure!(ok(at, 1.0, amp + amp_c), "{d:?}: gain {at} at fc");
        }
        _ => {}
    }
    cx.nontrivial();
    Ok(())
}

/// The running filter's measured response.
fn measured(s: &mut Src, cx: &mut Ctx) -> Res {
    let (fc, sr) = rates(s, 0.02, 0.3);
    let d = Design { kind: s.pick(&BASIC), fc, q: s.f32_log(0.3, 6.0), gain: 1.0, sr };
    cx.note(|| format!("{d:?}"));
    let w = 2.0 * d.x();
    let q = d.q as f64;
    let n = 4000;
    let at = measure(d.fresh(), w, n).abs();
    let dc = measure(d.fresh(), 0.0, n).abs();
    let ny = measure(d.fresh(), PI, n).abs();
    let (wdc, wat, wny) = match d.kind {
        Kind::Low => (1.0, q, 0.0),
        Kind::High => (0.0, q, 1.0),
        Kind::All => (1.0, 1.0, 1.0),
        _ => (1.0, 0.0, 1.0),
    };
    let t = 3e-3;
    ensure!((dc - wdc).abs() <= t, "{d:?}: measured gain {dc} at DC instead of {wdc}");
    ensure!((at - wat).abs() <= t * (1.0 + q), "{d:?}: measured gain {at} at fc instead of {wat}");
    ensure!((ny - wny).abs() <= t, "{d:?}: measured gain {ny} at Nyquist instead of {wny}");
    cx.nontrivial();
    Ok(())
}

fn main() {
    pbt::main(
        "C10",
        &[
            rand("formula", 2_000_000, 60_000_000, formula),
            rand("above", 500_000, 10_000_000, above),
            rand("gains", 300_000, 10_000_000, gains),
            rand("measured", 3_000, 100_000, measured),
        ],
    );
}
