//! C12: every designed filter is stable.
use pbt::filt::*;
use pbt::*;

fn design(s: &mut Src, lo: f64) -> Design {
    let (fc, sr) = rates(s, lo, 0.4995);
    let g = s.f32_log(0.05, 20.0);
    Design { kind: s.pick(&EVERY), fc, q: s.f32_log(0.05, 100.0), gain: if s.chance(1, 2) { -g } else { g }, sr }
}

fn jury(d: &Design, c: &K) -> Res {
    for i in 0..5 {
        ensure!(c[i].is_finite(), "{d:?}: {} is {}", NAMES[i], c[i]);
    }
    let (a1, a2) = (c[3], c[4]);
    ensure!(a2.abs() < 1.0 && a1.abs() < 1.0 + a2, "{d:?}: a pole lies on or outside the unit circle (a1 {a1}, a2 {a2}, radius {})", radius(c));
    Ok(())
}

fn poles(s: &mut Src, cx: &mut Ctx) -> Res {
    let d = design(s, 1e-3);
    cx.note(|| format!("{d:?}"));
    jury(&d, &k64(&d.fresh()))?;
    let mut c = used(s, &d);
    d.apply(&mut c);
    jury(&d, &k64(&c))?;
    // the dedicated entry points too
    let g = d.gain.abs();
    c.bell_boost_only(d.fc, d.q, g, d.sr);
    jury(&d, &k64(&c))?;
    c.bell_cut_only(d.fc, d.q, -g, d.sr);
    jury(&d, &k64(&c))?;
    c.low_shelf_boost_only(d.fc, d.q, g, d.sr);
    jury(&d, &k64(&c))?;
    c.low_shelf_cut_only(d.fc, d.q, -g, d.sr);
    jury(&d, &k64(&c))?;
    let r = radius(&k64(&d.fresh()));
    cx.label_if(r > 0.999, "pole radius above 0.999");
    cx.label_if(d.fc / d.sr > 0.45, "cutoff close to Nyquist");
    cx.nontrivial();
    Ok(())
}

/// Noise, redesigns in between, then silence: stays bounded and dies out.
fn decay(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut b = Bq::new(Co::new());
    let n = s.usize_in(1, 5);
    let mut last = None;
    let mut peak = 0.0f32;
    for _ in 0..n {
        let mut d = design(s, 0.01);
        if let (Some(l), true) = (&last, s.chance(1, 2)) {
            d = related(s, l);
        }
        d.q = d.q.clamp(0.2, 30.0);
        cx.note(|| format!("{d:?}"));
        d.apply(&mut b.coeffs);
        let key = s.below(0);
        for t in 0..s.usize_in(1, 200) {
            let x = ((mix(key ^ t as u64) >> 40) as f32 / (1u64 << 23) as f32) - 1.0;
            let y = b.process(x);
            ensure!(y.is_finite(), "{d:?}: output {y} while running");
            peak = peak.max(y.abs());
        }
        last = Some(d);
    }
    let d = last.unwrap();
    let r = radius(&k64(&d.fresh()));
    if r > 0.9999 {
        return Ok(());
    }
    // both poles may coincide, so allow n*r^n with a generous constant
    let steps = ((1e-8f64).ln() / r.max(1e-3).ln() * 1.5) as usize + 100;
    let mut top = 0.0f32;
    for t in 0..steps + 50 {
        let y = b.process(0.0);
        ensure!(y.is_finite(), "{d:?}: output {y} in silence");
        top = top.max(y.abs());
        if t >= steps {
            ensure!(y.abs() <= 1e-3 * (peak.max(top)) + 1e-20, "{d:?}: still {y} after {t} samples of silence (peak {top}, pole radius {r})");
        }
    }
    cx.label_if(n > 1, "redesigned while running");
    cx.nontrivial_if(peak > 0.0);
    Ok(())
}

/// Bounded input gives output bounded by the sum of the impulse response (f64 reference).
fn bibo(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut d = design(s, 0.01);
    d.q = d.q.clamp(0.1, 20.0);
    let c = k64(&d.fresh());
    let r = radius(&c);
    if r > 0.995 {
        return Ok(());
    }
    let (mut z1, mut z2, mut sum) = (0.0f64, 0.0f64, 0.0f64);
    for t in 0..3000 {
        let x = (t == 0) as u8 as f64;
        let y = c[0] * x + z1;
        z1 = c[1] * x + z2 - c[3] * y;
        z2 = c[2] * x - c[4] * y;
        sum += y.abs();
    }
    let mut b = Bq::new(d.fresh());
    let key = s.below(0);
    let mode = s.below(3);
    for t in 0..1500u64 {
        let x = match mode {
            0 => 1.0,
            1 => if t % 2 == 0 { 1.0 } else { -1.0 },
            _ => if mix(key ^ t) & 1 == 0 { 1.0 } else { -1.0 },
        };
        let y = b.process(x);
        ensure!((y.abs() as f64) <= sum * 1.01 + 1e-3, "{d:?}: output {y} at {t} exceeds the filter's bound {sum}");
    }
    cx.note(|| format!("{d:?}, bound {sum}"));
    cx.nontrivial();
    Ok(())
}

fn main() {
    pbt::main(
        "C12",
        &[
            rand("poles", 2_000_000, 80_000_000, poles),
            rand("decay", 20_000, 600_000, decay),
            rand("bibo", 20_000, 600_000, bibo),
        ],
    );
}
