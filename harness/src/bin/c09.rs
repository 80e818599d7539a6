//! C09: the biquad realises its difference equation for any coefficients.
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};
use pbt::num::U;
use pbt::signal::Passages;
use pbt::*;

type Bq = Biquad<Butterworth>;
type K = [f32; 5]; // b0 b1 b2 a1 a2

fn fresh() -> Bq {
    Biquad::new(BiquadCoeffs::<Butterworth>::new())
}
fn set(b: &mut Bq, k: K) {
    b.coeffs.b0 = k[0];
    b.coeffs.b1 = k[1];
    b.coeffs.b2 = k[2];
    b.coeffs.a1 = k[3];
    b.coeffs.a2 = k[4];
}
fn get(b: &Bq) -> K {
    [b.coeffs.b0, b.coeffs.b1, b.coeffs.b2, b.coeffs.a1, b.coeffs.a2]
}

fn coeffs(s: &mut Src) -> K {
    let b = match s.weighted(&[3, 1, 1]) {
        0 => [s.f32_in(-2.0, 2.0), s.f32_in(-2.0, 2.0), s.f32_in(-2.0, 2.0)],
        1 => [s.i64_in(-2, 2) as f32, s.i64_in(-2, 2) as f32, s.i64_in(-2, 2) as f32],
        _ => {
            let k = s.f32_log(1e-6, 1e3);
            [k * s.sample(), k * s.sample(), k * s.sample()]
        }
    };
    let a = match s.weighted(&[2, 4, 1]) {
        0 => [0.0, 0.0],
        1 => {
            // poles inside the unit circle
            let r = s.f32_in(0.0, 0.999);
            if s.chance(1, 2) {
                let th = s.unit() as f32 * std::f32::consts::PI;
                [-2.0 * r * th.cos(), r * r]
            } else {
                let r2 = s.f32_in(-0.99, 0.99);
                [-(r + r2), r * r2]
            }
        }
        _ => [s.f32_in(-2.2, 2.2), s.f32_in(-1.2, 1.2)],
    };
    [b[0], b[1], b[2], a[0], a[1]]
}

fn input(s: &mut Src, n: usize) -> Vec<f32> {
    match s.weighted(&[3, 1, 1, 1]) {
        0 => s.vec(n, |s| s.sample()),
        1 => (0..n).map(|i| (i == 0) as u8 as f32).collect(),
        2 => vec![1.0; n],
        _ => {
            let k = s.f32_log(1e-4, 1e4);
            s.vec(n, |s| if s.chance(1, 3) { k * s.sample() } else { 0.0 })
        }
    }
}

/// The difference equation checked sample by sample from the filter's own previous outputs, so rounding
/// never accumulates; coefficients may change before any sample.
fn equation(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut bq = fresh();
    ensure!(get(&bq) == [0.0; 5], "fresh coefficients are {:?}", get(&bq));
    let n = s.usize_in(3, 60);
    let xs = input(s, n);
    let mut k: K = [0.0; 5];
    if s.chance(9, 10) {
        k = coeffs(s);
        set(&mut bq, k);
    }
    let changing = s.chance(1, 2);
    let (mut kp, mut kpp) = ([0.0f32; 5], [0.0f32; 5]);
    let (mut x1, mut x2, mut y1, mut y2) = (0.0f64, 0.0f64, 0.0f64, 0.0f64);
    let mut changes = 0;
    cx.note(|| format!("coefficients {k:?}, input {:?}", &xs[..n.min(8)]));
    for (i, &x) in xs.iter().enumerate() {
        if changing && i > 0 && s.chance(1, 6) {
            k = coeffs(s);
            set(&mut bq, k);
            changes += 1;
            cx.note(|| format!("before sample {i}: {k:?}"));
        }
        let y = bq.process(x);
        ensure!(get(&bq) == k, "processing changed the coefficients");
        let xf = x as f64;
        // what sample n receives from n-1 and n-2 was weighted with the coefficients of that time
        let t = [
            k[0] as f64 * xf,
            kp[1] as f64 * x1,
            -(kp[3] as f64) * y1,
            kpp[2] as f64 * x2,
            -(kpp[4] as f64) * y2,
        ];
        let want: f64 = t.iter().sum();
        let tol = 8.0 * U * t.iter().map(|v| v.abs()).sum::<f64>() + 1e-42;
        ensure!((y as f64 - want).abs() <= tol, "sample {i}: output {y:?}, the difference equation gives {want:?} (within {tol:e})");
        if y.abs() > 1e33 {
            cx.label("stopped before overflow");
            break;
        }
        (x2, x1, y2, y1) = (x1, xf, y1, y as f64);
        (kpp, kp) = (kp, k);
    }
    cx.label_if(changes > 0, "coefficients changed while running");
    cx.nontrivial_if(y1 != 0.0 || y2 != 0.0);
    Ok(())
}

/// Scaling by powers of two and negation are exact in binary floating point; delaying the input delays
/// the output; sums map to sums within rounding.
fn linear(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = s.usize_in(4, 48);
    let k = coeffs(s);
    let (xa, xb) = (input(s, n), input(s, n));
    let run = |f: &dyn Fn(usize) -> f32, n: usize| -> Vec<f32> {
        let mut b = fresh();
        set(&mut b, k);
        (0..n).map(|i| b.process(f(i))).collect()
    };
    let ya = run(&|i| xa[i], n);
    let yb = run(&|i| xb[i], n);
    let big = |v: &[f32]| v.iter().any(|y| !(y.abs() < 1e15));
    if big(&ya) || big(&yb) {
        return Ok(());
    }
    cx.note(|| format!("coefficients {k:?}, inputs {:?} / {:?}", &xa[..4], &xb[..4]));
    let g = s.pick(&[-1.0f32, 2.0, 0.5, -4.0, 1024.0]);
    let yg = run(&|i| g * xa[i], n);
    for i in 0..n {
        let w = g * ya[i];
        ensure!((yg[i] - w).abs() <= 1e-6 * w.abs() + 1e-30, "input scaled by {g}: sample {i} is {} instead of {w}", yg[i]);
    }
    let lag = s.usize_in(1, 9);
    let yd = run(&|i| if i < lag { 0.0 } else { xa[i - lag] }, n + lag);
    for i in 0..n + lag {
        let w = if i < lag { 0.0 } else { ya[i - lag] };
        ensure!(yd[i] == w, "input delayed by {lag}: sample {i} is {} instead of {w}", yd[i]);
    }
    // superposition only where rounding cannot be amplified: pole radius well inside the circle
    let (a1, a2) = (k[3] as f64, k[4] as f64);
    if a1.abs() + a2.abs() < 0.95 {
        let ys = run(&|i| xa[i] + xb[i], n);
        let m = xa.iter().chain(&xb).fold(0.0f32, |m, v| m.max(v.abs())) as f64;
        let g = (k[0].abs() + k[1].abs() + k[2].abs()) as f64;
        let gain = g / (1.0 - a1.abs() - a2.abs());
        let tol = 40.0 * U * m * (gain + 1.0) / (1.0 - a1.abs() - a2.abs()) + 1e-40;
        for i in 0..n {
            let w = ya[i] as f64 + yb[i] as f64;
            ensure!((ys[i] as f64 - w).abs() <= tol, "sum of inputs: sample {i} is {} instead of {w}", ys[i]);
        }
        cx.label("superposition");
    }
    cx.nontrivial_if(ya.iter().any(|y| *y != 0.0));
    Ok(())
}

/// A feed-forward filter's impulse response is its coefficients; a fresh filter is silent.
fn impulse(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut silent = fresh();
    for _ in 0..5 {
        let x = s.f32_finite();
        let y = silent.process(x);
        ensure!(y == 0.0, "unconfigured filter answered {x:?} with {y:?}");
    }
    // unconfigured samples leave no trace
    let mut k = coeffs(s);
    k[3] = 0.0;
    k[4] = 0.0;
    set(&mut silent, k);
    let (v, want) = (s.f32_in(0.1, 2.0), [k[0], k[1], k[2], 0.0, 0.0]);
    for (i, w) in want.iter().enumerate() {
        let y = silent.process(if i == 0 { v } else { 0.0 });
        let w = *w as f64 * v as f64;
        ensure!((y as f64 - w).abs() <= 2.0 * U * w.abs() + 1e-44, "impulse {v}: sample {i} is {y:?} instead of {w:?}");
    }
    cx.note(|| format!("FIR {:?}, impulse {v}", &k[..3]));
    cx.nontrivial_if(k[..3].iter().all(|c| *c != 0.0));
    Ok(())
}

/// The difference equation at every sample of a long signal, from the filter's own outputs; at certain
/// samples the coefficients are exchanged.
fn run(b: &mut Bq, ks: &[K], every: u64, n: u64, mut signal: impl FnMut() -> f32) -> Res {
    let mut at = 0;
    set(b, ks[0]);
    let (mut k, mut kp, mut kpp) = (ks[0].map(|v| v as f64), [0.0f64; 5], [0.0f64; 5]);
    let (mut x1, mut x2, mut y1, mut y2) = (0.0f64, 0.0f64, 0.0f64, 0.0f64);
    for i in 0..n {
        if i % every == every - 1 {
            at = (at + 1) % ks.len();
            set(b, ks[at]);
            k = ks[at].map(|v| v as f64);
        }
        let x = signal();
        let y = b.process(x) as f64;
        let t = [k[0] * x as f64, kp[1] * x1, -kp[3] * y1, kpp[2] * x2, -kpp[4] * y2];
        let want: f64 = t.iter().sum();
        let tol = 8.0 * U * t.iter().map(|v| v.abs()).sum::<f64>() + 1e-42;
        ensure!((y - want).abs() <= tol, "sample {i}: output {y:?}, the difference equation gives {want:?} (within {tol:e})");
        if y.abs() > 1e33 {
            break;
        }
        (x2, x1, y2, y1) = (x1, x as f64, y1, y);
        (kpp, kp) = (kp, k);
    }
    Ok(())
}

/// Stable coefficients up to poles that ring for thousands of samples or for ever.
fn ringing(s: &mut Src) -> K {
    let b = match s.weighted(&[4, 1]) {
        0 => [s.f32_in(-1.0, 1.0), s.f32_in(-1.0, 1.0), s.f32_in(-1.0, 1.0)],
        _ => [1.0, 0.0, 0.0],
    };
    let r = match s.weighted(&[3, 3, 1]) {
        0 => s.f32_in(0.0, 0.99) as f64,
        1 => 1.0 - s.f32_log(1e-6, 1e-2) as f64,
        _ => 1.0,
    };
    let a = if s.chance(3, 4) {
        let th = s.unit() * std::f64::consts::PI;
        [-2.0 * r * th.cos(), r * r]
    } else {
        let r2 = s.f32_in(-0.99, 0.99) as f64;
        [-(r + r2), r * r2]
    };
    [b[0], b[1], b[2], a[0] as f32, a[1] as f32]
}

fn listen(s: &mut Src, cx: &mut Ctx, ks: &[K], every: u64, n: u64) -> Res {
    let key = s.below(0);
    let level = if s.chance(1, 3) { s.f32_log(1e-12, 1e12) } else { 1.0 };
    let longest = s.pick(&[0u64, 100, 4_000, 50_000]);
    cx.note(|| format!("coefficients {ks:?}, exchanged every {every} samples, {n} samples, level {level}, passages up to {longest}"));
    let mut b = fresh();
    if longest == 0 {
        let mut t = 0u64;
        run(&mut b, ks, every, n, || {
            t += 1;
            level * (((mix(key ^ t) >> 40) as f32 / (1u64 << 23) as f32) - 1.0)
        })?;
    } else {
        let mut p = Passages::new(key, longest);
        run(&mut b, ks, every, n, || level * p.next())?;
    }
    cx.nontrivial();
    Ok(())
}

/// Seconds of noise, silence, held values, decays...
fn long(s: &mut Src, cx: &mut Ctx) -> Res {
    let ks = [ringing(s), ringing(s)];
    let every = s.pick(&[1u64 << 40, 1 << 40, 1000, 7]);
    let n = if s.chance(1, 8) { 150_000 } else { 20_000 };
    listen(s, cx, &ks, every, n)
}

/// Minutes of audio: more samples than a float or a 24-bit counter can tell apart, coefficients exchanged now and then.
fn marathon(s: &mut Src, cx: &mut Ctx) -> Res {
    let ks = [ringing(s), ringing(s)];
    let (n, every) = (s.usize_in(17_000_000, 20_000_000) as u64, s.pick(&[1u64 << 40, 1000, 100_000]));
    listen(s, cx, &ks, every, n)
}

fn main() {
    pbt::main(
        "C09",
        &[
            rand("equation", 1_500_000, 60_000_000, equation),
            rand("linear", 500_000, 20_000_000, linear),
            rand("impulse", 500_000, 10_000_000, impulse),
            rand("long", 3_000, 60_000, long),
            rand("marathon", 8, 200, marathon),
        ],
    );
}
