//! C04: linear interpolation between buffer samples is exact and bounded.
use embedded_audio_tools::errors::MemSliceError::*;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::DelayLine;
use pbt::num::U;
use pbt::signal::*;
use pbt::*;

fn content(s: &mut Src, len: usize) -> Vec<f32> {
    match s.weighted(&[3, 2, 1]) {
        0 => s.vec(len, |s| s.sample()),
        1 => s.vec(len, |s| s.i64_in(-9, 9) as f32),
        _ => {
            let scale = s.f32_log(1e-20, 1e30);
            s.vec(len, |s| s.sample() * scale)
        }
    }
}

/// A position around, inside or far from a buffer.
fn position(s: &mut Src, len: usize, wild: bool) -> f32 {
    let l = len as f64;
    match s.weighted(&[5, 3, 2, 3, 2, if wild { 3 } else { 0 }]) {
        0 => (s.unit() * l) as f32,
        1 => s.i64_in(-2 * len as i64 - 2, 2 * len as i64 + 2) as f32,
        2 => {
            // next to an integer
            let k = s.i64_in(-1, len as i64 + 1) as f32;
            let b = k.to_bits();
            let d = s.i64_in(-3, 3);
            f32::from_bits((b as i64 + d).clamp(0, u32::MAX as i64) as u32)
        }
        3 => ((s.unit() * 6.0 - 3.0) * l) as f32,
        4 => ((s.unit() - 0.5) * 2.0 * s.pick(&[1e3, 1e5, 8e6])) as f32,
        _ => s.f32_any(),
    }
}

fn eq(a: f32, b: f32) -> bool {
    a == b
}

/// Straight-line blend and its tolerance at circular position `p` (known to within `e`).
fn circular(c: &[f32], p: f64, e: f64) -> (f64, f64, f64, f64) {
    let n = c.len() as i128;
    let at = |i: i128| c[i.rem_euclid(n) as usize] as f64;
    let i = p.floor();
    let (a, b) = (at(i as i128), at(i as i128 + 1));
    let t = p - i;
    let mut slope = (b - a).abs();
    if e > 0.0 {
        slope = slope.max((at(i as i128) - at(i as i128 - 1)).abs()).max((at(i as i128 + 2) - at(i as i128 + 1)).abs());
    }
    let tol = 5.0 * U * (a.abs() + b.abs()) + slope * e + 1e-43;
    (a * (1.0 - t) + b * t, tol, a.min(b), a.max(b))
}

fn checked(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = if s.chance(1, 12) { 0 } else { length(s, 1) };
    let c = content(s, len);
    let off = s.usize_in(0, 2);
    let mut all = vec![f32::from_bits(POISON); off];
    all.extend(&c);
    all.push(f32::from_bits(POISON));
    let a = Arena::new(&all);
    let (m, n) = (a.part_mut(off, len), a.part(off, len));
    for _ in 0..s.usize_in(1, 6) {
        let p = position(s, len, true);
        cx.note(|| format!("len {len}, position {p:?}"));
        let inside = len > 0 && p >= 0.0 && p as f64 <= (len - 1) as f64;
        let r = m.lerp(p);
        ensure!(r.as_ref().map(|f| f.to_bits()).ok() == n.lerp(p).map(|f| f.to_bits()).ok(), "mutable and read-only views disagree at {p:?}");
        match r {
            Err(e) => {
                ensure!(!inside, "lerp({p:?}) failed on length {len}");
                ensure!(e == IndexOutOfBound, "lerp({p:?}) on length {len} reported the wrong error");
                cx.label("refused");
            }
            Ok(v) => {
                ensure!(inside, "lerp({p:?}) succeeded with {v:?} on length {len}");
                check_value(&c, p as f64, 0.0, v, p)?;
                cx.label("interpolated");
                cx.nontrivial_if(p.fract() != 0.0);
                cx.label_if(p as f64 == (len - 1) as f64, "last sample");
                if (p as usize) + 1 < len {
                    let u = unsafe { m.lerp_unchecked(p) };
                    check_value(&c, p as f64, 0.0, u, p)?;
                }
            }
        }
    }
    Ok(())
}

fn check_value(c: &[f32], p: f64, e: f64, v: f32, shown: f32) -> Res {
    let (want, tol, lo, hi) = circular(c, p, e);
    let len = c.len();
    if e == 0.0 && p == p.floor() {
        let i = (p as i128).rem_euclid(len as i128) as usize;
        ensure!(eq(v, c[i]), "position {shown:?} on length {len} returned {v:?} instead of sample {:?}", c[i]);
        return Ok(());
    }
    ensure!((v as f64 - want).abs() <= tol, "position {shown:?} on length {len} returned {v:?}, want {want:?} within {tol:e}");
    let slack = 4.0 * U * (lo.abs().max(hi.abs())) + if e > 0.0 { tol } else { 0.0 } + 1e-43;
    ensure!(v as f64 >= lo - slack && v as f64 <= hi + slack, "position {shown:?} returned {v:?}, outside its neighbours {lo}..{hi}");
    Ok(())
}

fn wrapped(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = length(s, 1);
    let c = content(s, len);
    let off = s.usize_in(0, 2);
    let mut all = vec![f32::from_bits(POISON); off];
    all.extend(&c);
    all.push(f32::from_bits(POISON));
    let a = Arena::new(&all);
    let (m, n) = (a.part_mut(off, len), a.part(off, len));
    for _ in 0..s.usize_in(1, 5) {
        let p = position(s, len, false);
        cx.note(|| format!("len {len}, wrapped position {p:?}"));
        let v = m.lerp_wrapped(p);
        ensure!(v.to_bits() == n.lerp_wrapped(p).to_bits(), "mutable and read-only views disagree at {p:?}");
        check_value(&c, p as f64, 0.0, v, p)?;
        cx.nontrivial_if(p.fract() != 0.0 && !(p >= 0.0 && (p as f64) < (len - 1) as f64));
        cx.label_if(p < 0.0, "negative position");
        cx.label_if(p as f64 > (len - 1) as f64 && (p as f64) < len as f64, "across the seam");
        cx.label_if(p as f64 >= len as f64, "beyond the end");
    }
    let mut d = DelayLine::new(m);
    let pos = s.usize_in(0, len + 3);
    for _ in 0..pos {
        d.advance();
    }
    let pos = pos % len;
    for _ in 0..s.usize_in(1, 3) {
        let o = position(s, len, false);
        cx.note(|| format!("delay line of {len} at {pos}, offset {o:?}"));
        let p = pos as f64 + o as f64;
        let e = if o == o.floor() && p.abs() < 8e6 { 0.0 } else { 3.0 * U * (pos as f64 + o.abs() as f64) };
        check_value(&c, p, e, d.read_lerp_wrapped_at(o), o)?;
        cx.label("delay line");
    }
    Ok(())
}

/// Values approach the sample continuously from both sides of every integer, seam included.
fn continuity(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = length(s, 2);
    let c = content(s, len);
    let a = Arena::new(&c);
    let v = a.view();
    for _ in 0..6 {
        let k = s.i64_in(-(len as i64) - 1, 2 * len as i64);
        let h = s.f32_log(1e-6, 0.01) as f64;
        let at = |i: i64| c[i.rem_euclid(len as i64) as usize] as f64;
        let (l, r) = ((k as f64 - h) as f32, (k as f64 + h) as f32);
        let (dl, dr) = (k as f64 - l as f64, r as f64 - k as f64);
        let m = at(k - 1).abs() + at(k).abs() + at(k + 1).abs();
        let tol = 8.0 * U * m + 1e-43;
        let lo = (v.lerp_wrapped(l) as f64 - at(k)).abs();
        let hi = (v.lerp_wrapped(r) as f64 - at(k)).abs();
        ensure!(lo <= (at(k) - at(k - 1)).abs() * dl + tol, "jump of {lo} just before position {k} of length {len}");
        ensure!(hi <= (at(k + 1) - at(k)).abs() * dr + tol, "jump of {hi} just after position {k} of length {len}");
        cx.note(|| format!("len {len}, around {k}, step {h:e}"));
        cx.nontrivial();
    }
    Ok(())
}

/// Longer buffers: every quarter position of the whole buffer and one turn to either side.
fn scan(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = s.pick(&[127usize, 128, 255, 256, 257, 1000, 1024, 4097]);
    let c = s.vec(64, |s| s.sample());
    let c: Vec<f32> = (0..len).map(|i| c[i * 7 % 64] + (i % 13) as f32).collect();
    let a = Arena::new(&c);
    let v: MemorySlice<NonMutable> = a.view();
    for k in -(4 * len as i64)..(8 * len as i64) {
        let p = k as f32 / 4.0;
        check_value(&c, p as f64, 0.0, v.lerp_wrapped(p), p)?;
        let inside = p >= 0.0 && p <= (len - 1) as f32;
        match v.lerp(p) {
            Ok(x) => {
                ensure!(inside, "lerp({p}) succeeded on length {len}");
                check_value(&c, p as f64, 0.0, x, p)?;
            }
            Err(_) => ensure!(!inside, "lerp({p}) failed on length {len}"),
        }
    }
    cx.note(|| format!("len {len}, every quarter position of three turns"));
    cx.nontrivial();
    Ok(())
}

/// Buffers longer than a 16-bit index; quarter positions are exact there.
fn large(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = if s.chance(1, 30) { s.usize_in(300_000, 1_300_000) } else { big_length(s) };
    let key = s.below(0);
    let c: Vec<f32> = (0..len).map(|i| (mix(key ^ i as u64) >> 40) as f32 / (1 << 23) as f32 - 1.0).collect();
    let a = Arena::new(&c);
    let v = a.view_mut();
    let l = len as i64;
    for _ in 0..30 {
        let p = match s.below(3) {
            0 => s.i64_in(-8 * l, 12 * l),
            1 => 4 * l * s.i64_in(-1, 2) + s.i64_in(-9, 9),
            _ => 4 * 65_536 * s.i64_in(0, 1) + s.i64_in(-9, 9),
        } as f32
            / 4.0;
        check_value(&c, p as f64, 0.0, v.lerp_wrapped(p), p)?;
        let inside = p >= 0.0 && p <= (len - 1) as f32;
        match v.lerp(p) {
            Ok(x) => {
                ensure!(inside, "lerp({p}) succeeded on length {len}");
                check_value(&c, p as f64, 0.0, x, p)?;
            }
            Err(_) => ensure!(!inside, "lerp({p}) failed on length {len}"),
        }
    }
    let mut d = DelayLine::new(v);
    let pos = s.usize_in(0, len - 1);
    for _ in 0..pos {
        d.advance();
    }
    for _ in 0..20 {
        let o = s.i64_in(-4 * l, 4 * l) as f32 / 4.0;
        check_value(&c, pos as f64 + o as f64, 0.0, d.read_lerp_wrapped_at(o), o)?;
    }
    cx.note(|| format!("len {len}, line at {pos}"));
    cx.nontrivial();
    Ok(())
}

/// Every half position of one turn before to one turn behind buffers of every length (to 2100 and the common ones above).
fn lengths(i: u64) -> Result<bool, Fail> {
    let len = every_length(i);
    let c: Vec<f32> = (0..len).map(|k| (mix(i ^ (k as u64) << 20) >> 40) as f32 / (1 << 23) as f32 - 1.0).collect();
    let a = Arena::new(&c);
    let v = a.view_mut();
    let l = len as i64;
    for k in -2 * l - 2..4 * l + 2 {
        let p = k as f32 / 2.0;
        check_value(&c, p as f64, 0.0, v.lerp_wrapped(p), p)?;
        let inside = k >= 0 && k <= 2 * l - 2;
        match v.lerp(p) {
            Ok(x) => {
                ensure!(inside, "lerp({p}) succeeded on length {len}");
                check_value(&c, p as f64, 0.0, x, p)?;
            }
            Err(_) => ensure!(!inside, "lerp({p}) failed on length {len}"),
        }
    }
    let mut d = DelayLine::new(v);
    let pos = (mix(i) % len as u64) as i64;
    for _ in 0..pos {
        d.advance();
    }
    for k in (-2 * l - 2..2 * l + 2).step_by(1 + len / 97) {
        let o = k as f32 / 2.0;
        check_value(&c, pos as f64 + o as f64, 0.0, d.read_lerp_wrapped_at(o), o)?;
    }
    Ok(len > 1)
}

/// Views that end near the 2^24th sample, where positions begin to round: the checked form accepts
/// what lies at or before the last sample, and nothing else.
fn edge(i: u64) -> Result<bool, Fail> {
    const EDGE: usize = 1 << 24;
    static BLOCK: std::sync::OnceLock<Vec<f32>> = std::sync::OnceLock::new();
    let at = |k: usize| if k + 64 < EDGE { -1.0 } else { ((k + 64 - EDGE) * 37 % 101) as f32 };
    let block = BLOCK.get_or_init(|| (0..EDGE + 256).map(at).collect());
    let len = EDGE - 32 + (i % 160) as usize;
    let v = from_slice(&block[..len]);
    let p = f32::from_bits((((len - 1) as f32).to_bits() as i64 + (i / 160 % 16) as i64 - 8) as u32);
    let inside = p as f64 <= (len - 1) as f64;
    match v.lerp(p) {
        Err(e) => ensure!(!inside && e == IndexOutOfBound, "lerp({p:?}) failed on length {len}"),
        Ok(x) => {
            ensure!(inside, "lerp({p:?}) succeeded with {x:?} on length {len}");
            let (a, b) = (at(p as usize) as f64, at(p as usize + 1) as f64);
            let t = p as f64 - p.floor() as f64;
            let want = if t == 0.0 { a } else { a + (b - a) * t };
            ensure!((x as f64 - want).abs() <= 5.0 * U * (a.abs() + b.abs()), "lerp({p:?}) on length {len} returned {x:?} instead of {want:?}");
        }
    }
    Ok(len > EDGE)
}

fn main() {
    pbt::main(
        "C04",
        &[
            rand("checked", 1_500_000, 60_000_000, checked),
            rand("wrapped", 1_500_000, 60_000_000, wrapped),
            rand("continuity", 300_000, 10_000_000, continuity),
            rand("scan", 400, 20_000, scan),
            sweep("edge", 160 * 16, 160 * 16, edge),
            rand("large", 1_500, 60_000, large),
            sweep("lengths", EVERY_LENGTH, EVERY_LENGTH, lengths),
        ],
    );
}
