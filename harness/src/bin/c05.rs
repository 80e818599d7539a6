//! C05: Lagrange interpolation passes through samples and reproduces polynomials.
use embedded_audio_tools::float::{lagrange, lagrange_only_4_elements};
use embedded_audio_tools::DelayLine;
use pbt::num::*;
use pbt::signal::*;
use pbt::*;

/// |derivative| of the interpolant, summed over absolute terms.
fn slope(ys: &[f32], x: f64) -> f64 {
    let h = 1e-5;
    let (a, b) = (lagrange_weights(ys.len(), x - h), lagrange_weights(ys.len(), x + h));
    ys.iter().zip(a.iter().zip(&b)).map(|(y, (a, b))| (*y as f64 * (b - a) / (2.0 * h)).abs()).sum()
}

fn tolerance(n: usize, cond: f64) -> f64 {
    (4 * n + 8) as f64 * U * cond + 1e-40
}

fn check(ys: &[f32], x: f64, e: f64, got: f32, what: &str) -> Res {
    let (want, cond) = lagrange64(ys, x);
    let mut tol = tolerance(ys.len(), cond);
    if e > 0.0 {
        tol += 2.0 * e * slope(ys, x) + 4.0 * U * cond;
    }
    ensure!((got as f64 - want).abs() <= tol, "{what}: got {got:?}, the polynomial gives {want:?} (within {tol:e}), n {}, x {x}", ys.len());
    Ok(())
}

fn xs(s: &mut Src, n: usize) -> f32 {
    let top = (n - 1) as f64;
    match s.weighted(&[2, 5, 1, 1]) {
        0 => s.usize_in(0, n - 1) as f32,
        1 => (s.unit() * top) as f32,
        2 => (s.below(64 * (n as u64 - 1) + 1) as f64 / 64.0) as f32,
        _ => ((s.usize_in(0, n - 1) as f64 + (s.unit() - 0.5) * 1e-4).clamp(0.0, top)) as f32,
    }
}

/// Terms of samples below this become denormal, which no relative tolerance covers.
fn quiet_is_zero(v: f32) -> f32 {
    if v.abs() < 1e-18 {
        0.0
    } else {
        v
    }
}

fn samples(s: &mut Src, n: usize) -> Vec<f32> {
    match s.weighted(&[3, 2, 1]) {
        0 => s.vec(n, |s| quiet_is_zero(s.sample())),
        1 => s.vec(n, |s| s.i64_in(-9, 9) as f32),
        _ => {
            let k = s.f32_log(1e-6, 1e6);
            s.vec(n, |s| quiet_is_zero(s.sample() * k))
        }
    }
}

fn plain(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = match s.weighted(&[60, 20, 9, 1]) {
        0 => s.usize_in(2, 8),
        1 => s.usize_in(2, 24),
        2 => s.usize_in(2, 60),
        _ => s.usize_in(61, 100),
    };
    let ys = samples(s, n);
    // also before the first point, where few points keep the result in range
    let x = if n <= 10 && s.chance(1, 12) {
        s.f32_in(-4.0, 0.0)
    } else if n > 60 {
        // near the ends of that many points the terms leave the range of an f32
        let m = (n - 1) as f64 / 2.0;
        (m + (s.unit() - 0.5) * 0.6 * m).floor() as f32 + s.pick(&[0.0f32, 0.5, 0.25, 0.3])
    } else {
        xs(s, n)
    };
    cx.note(|| format!("n {n}, x {x}"));
    let got = lagrange(&ys, x);
    check(&ys, x as f64, 0.0, got, "lagrange")?;
    if x.fract() == 0.0 && x >= 0.0 {
        let y = ys[x as usize];
        ensure!((got - y).abs() as f64 <= tolerance(n, y.abs() as f64), "lagrange at node {x}: {got:?} instead of {y:?}");
        cx.label("at a node");
    }
    if n >= 4 {
        // the specialised form uses the first four; any position
        let x4 = if s.chance(1, 4) { s.f32_in(-6.0, 9.0) } else { s.f32_in(0.0, 3.0) };
        let got = unsafe { lagrange_only_4_elements(&ys, x4) };
        check(&ys[..4], x4 as f64, 0.0, got, "lagrange_only_4_elements")?;
        if (0.0..=3.0).contains(&x4) {
            let l = lagrange(&ys[..4], x4) as f64;
            let (_, cond) = lagrange64(&ys[..4], x4 as f64);
            ensure!((got as f64 - l).abs() <= 2.0 * tolerance(4, cond), "four-point form {got} and general form {l} disagree at {x4}");
        }
        cx.label("four points");
    }
    cx.nontrivial_if(x.fract() != 0.0);
    Ok(())
}

/// Values taken from a polynomial of degree < N are continued exactly.
fn polynomial(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = s.usize_in(2, 9);
    let deg = s.usize_in(0, n - 1);
    let k: Vec<f64> = (0..=deg).map(|_| s.i64_in(-3, 3) as f64 / (1u64 << s.below(8)) as f64).collect();
    let p = |x: f64| k.iter().rev().fold(0.0, |a, c| a * x + c);
    let ys: Vec<f32> = (0..n).map(|i| p(i as f64) as f32).collect();
    let x = xs(s, n);
    let got = lagrange(&ys, x);
    let (_, cond) = lagrange64(&ys, x as f64);
    let tol = tolerance(n, cond);
    ensure!((got as f64 - p(x as f64)).abs() <= tol, "degree {deg} polynomial {k:?} at {x} over {n} points: {got}, want {}", p(x as f64));
    cx.note(|| format!("n {n}, polynomial {k:?}, x {x}"));
    cx.nontrivial_if(deg > 0 && k[deg] != 0.0 && x.fract() != 0.0);
    Ok(())
}

fn position(s: &mut Src, len: usize, far: bool) -> f32 {
    let l = len as f64;
    match s.weighted(&[8, 6, 6, 2, far as u64]) {
        0 => (s.unit() * l) as f32,
        1 => s.i64_in(-2 * len as i64 - 2, 2 * len as i64 + 2) as f32,
        2 => (s.i64_in(-64 * 3 * len as i64, 64 * 3 * len as i64) as f64 / 64.0) as f32,
        3 => ((s.unit() - 0.5) * 20_000.0) as f32,
        _ => ((s.unit() - 0.5) * s.pick(&[2e5, 4e6, 1.6e7])) as f32,
    }
}

fn around(c: &[f32], i: i64, from: i64, n: usize) -> Vec<f32> {
    (0..n as i64).map(|k| c[(i + from + k).rem_euclid(c.len() as i64) as usize]).collect()
}

/// Wrapped window of `w` samples at position `p` known within `e`.
fn check_window(c: &[f32], p: f64, e: f64, asked: usize, got: f32, what: &str) -> Res {
    // at least the sample itself, at most 100 points
    let w = asked.clamp(1, 100);
    let i = p.floor();
    let from = -((w as i64 - 1) / 2);
    let ys = around(c, i as i64, from, w);
    let x = p - i - from as f64;
    // the window itself sits at an offset: its rounding moves x by up to an ulp
    let e = e + 2.0 * U * w as f64 + 2.0 * U * p.abs().min(1.0);
    let (want, cond) = lagrange64(&ys, x);
    let mut tol = tolerance(w, cond) + 2.0 * e * slope(&ys, x) + 4.0 * U * cond;
    if p - i < e || i + 1.0 - p < e {
        // could fall into the neighbouring window, which is continuous at the node
        for di in [-1, 1] {
            let y2 = around(c, i as i64 + di, from, w);
            tol += 2.0 * e * slope(&y2, x);
        }
    }
    ensure!(
        (got as f64 - want).abs() <= tol,
        "{what}: position {p} window {asked} on length {}: got {got:?}, want {want:?} (within {tol:e})",
        c.len()
    );
    Ok(())
}

fn wrapped(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = length(s, 1);
    let c = samples(s, len);
    let off = s.usize_in(0, 2);
    let mut all = vec![f32::from_bits(POISON); off];
    all.extend(&c);
    all.push(f32::from_bits(POISON));
    let a = Arena::new(&all);
    let (m, v) = (a.part_mut(off, len), a.part(off, len));
    for _ in 0..s.usize_in(1, 4) {
        let p = position(s, len, true);
        let w = match s.weighted(&[80, 30, 10, 1]) {
            0 => s.usize_in(0, 8),
            1 => s.usize_in(2, 20),
            2 => s.usize_in(0, 100),
            _ => s.pick(&[101, 102, 128, 1000, 1 << 20, usize::MAX - 1, usize::MAX, isize::MAX as usize, isize::MAX as usize + 1]),
        };
        cx.note(|| format!("len {len}, position {p}, window {w}"));
        let got = m.lagrange_wrapped(p, w);
        ensure!(got.to_bits() == v.lagrange_wrapped(p, w).to_bits(), "mutable and read-only views disagree");
        check_window(&c, p as f64, 0.0, w, got, "lagrange_wrapped")?;
        let i = (p as f64).floor();
        let ys = around(&c, i as i64, 0, 4);
        let got = m.lagrange_four_points_wrapped(p);
        check(&ys, p as f64 - i, 2.0 * U, got, "lagrange_four_points_wrapped")?;
        cx.nontrivial_if(p.fract() != 0.0);
        cx.label_if(w > len, "window longer than the buffer");
        cx.label_if(w % 2 == 1, "odd window");
        cx.label_if(w < 2, "at most one point");
        cx.label_if(w > 100, "more than 100 points");
        cx.label_if(p < 0.0, "negative position");
    }
    let mut d = DelayLine::new(m);
    let pos = s.usize_in(0, len + 3);
    for _ in 0..pos {
        d.advance();
    }
    let pos = pos % len;
    for _ in 0..s.usize_in(1, 3) {
        let o = position(s, len, false);
        cx.note(|| format!("delay line of {len} at {pos}, offset {o}"));
        let p = pos as f64 + o as f64;
        let e = 3.0 * U * (pos as f64 + o.abs() as f64);
        check_window(&c, p, e, 5, d.read_lagrange_wrapped_at(o), "delay line read_lagrange_wrapped_at")?;
    }
    Ok(())
}

/// Buffers longer than a 16-bit index.
fn large(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = big_length(s);
    let key = s.below(0);
    let c: Vec<f32> = (0..len).map(|i| (mix(key ^ i as u64) >> 40) as f32 / (1 << 23) as f32 - 1.0).collect();
    let a = Arena::new(&c);
    let v = a.view_mut();
    let l = len as i64;
    for _ in 0..20 {
        let p = (16 * match s.below(3) {
            0 => s.i64_in(-2 * l, 3 * l),
            1 => l * s.i64_in(-1, 2) + s.i64_in(-9, 9),
            _ => 65_536 * s.i64_in(0, 1) + s.i64_in(-9, 9),
        } + s.i64_in(0, 15)) as f32
            / 16.0;
        let w = s.usize_in(1, 8);
        check_window(&c, p as f64, 0.0, w, v.lagrange_wrapped(p, w), "lagrange_wrapped")?;
        let i = (p as f64).floor();
        check(&around(&c, i as i64, 0, 4), p as f64 - i, 2.0 * U, v.lagrange_four_points_wrapped(p), "lagrange_four_points_wrapped")?;
    }
    let mut d = DelayLine::new(v);
    let pos = s.usize_in(0, len - 1);
    for _ in 0..pos {
        d.advance();
    }
    for _ in 0..10 {
        let o = s.i64_in(-16 * l, 16 * l) as f32 / 16.0;
        check_window(&c, pos as f64 + o as f64, 0.0, 5, d.read_lagrange_wrapped_at(o), "delay line read_lagrange_wrapped_at")?;
    }
    cx.note(|| format!("len {len}, line at {pos}"));
    cx.nontrivial();
    Ok(())
}

/// Positions across buffers of every length (to 2100 and the common ones above), seams included.
fn lengths(i: u64) -> Result<bool, Fail> {
    let len = every_length(i);
    let c: Vec<f32> = (0..len).map(|k| (mix(i ^ (k as u64) << 20) >> 40) as f32 / (1 << 23) as f32 - 1.0).collect();
    let a = Arena::new(&c);
    let v = a.view_mut();
    let l = len as i64;
    let mut d = DelayLine::new(v);
    let pos = (mix(i) % len as u64) as i64;
    for _ in 0..pos {
        d.advance();
    }
    let near = [-l, 0, l].into_iter().flat_map(|k| k - 3..k + 3);
    for (n, k) in near.chain((-l..2 * l).step_by(1 + len / 40)).enumerate() {
        let p = k as f32 + [0.5f32, 0.25, 0.0, 0.75][n % 4];
        let w = n % 9;
        check_window(&c, p as f64, 0.0, w, v.lagrange_wrapped(p, w), "lagrange_wrapped")?;
        check(&around(&c, k, 0, 4), p as f64 - k as f64, 2.0 * U, v.lagrange_four_points_wrapped(p), "lagrange_four_points_wrapped")?;
        check_window(&c, pos as f64 + p as f64, 0.0, 5, d.read_lagrange_wrapped_at(p), "delay line read_lagrange_wrapped_at")?;
    }
    Ok(len > 1)
}

fn main() {
    pbt::main(
        "C05",
        &[
            rand("plain", 600_000, 20_000_000, plain),
            rand("polynomial", 400_000, 15_000_000, polynomial),
            rand("wrapped", 400_000, 15_000_000, wrapped),
            rand("large", 1_500, 60_000, large),
            sweep("lengths", EVERY_LENGTH, EVERY_LENGTH, lengths),
        ],
    );
}
