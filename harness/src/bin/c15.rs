//! C15: the phase accumulator advances by exactly freq/sr cycles per step.
use embedded_audio_tools::errors::FrequencyError;
use embedded_audio_tools::{PhaseAccumulator, SoftPhaseAccumulator};
use pbt::num::U;
use pbt::signal::set_freq;
use pbt::*;
use std::collections::HashMap;

// a phase may be reported with the resolution a float has over the whole of [0, 1)
const RESOLUTION: f64 = 1.0 / 16_777_216.0 + 1e-12;

fn rate(s: &mut Src) -> f32 {
    match s.weighted(&[3, 2, 1]) {
        0 => s.sample_rate(1.0, 400_000.0),
        1 => s.f32_log(1.0, 400_000.0),
        _ => s.pick(&[1.0f32, 3.0, 1000.0, 65_536.0, 1e6]),
    }
}
/// A valid frequency below the sample rate.
fn freq(s: &mut Src, sr: f32) -> f32 {
    let f = match s.weighted(&[4, 4, 2, 2, 1]) {
        0 => s.f32_log(1e-3, 20_000.0),
        1 => sr * s.f32_in(0.0, 0.999),
        2 => sr / s.usize_in(2, 64) as f32,
        3 => s.f32_log(1e-30, 1.0),
        _ => 0.0,
    };
    if f < sr {
        f
    } else {
        sr * 0.25
    }
}
fn shift(s: &mut Src) -> u32 {
    match s.weighted(&[2, 2, 2]) {
        0 => 0,
        1 => pbt::signal::phase(s),
        _ => s.below(1 << 32) as u32,
    }
}
fn ideal(f: f32, sr: f32) -> f64 {
    f as f64 * 4_294_967_296.0 / sr as f64
}
fn step_ok(step: u32, f: f32, sr: f32) -> bool {
    let want = ideal(f, sr);
    (step as f64 - want).abs() <= 1.0 + 3e-7 * want
}

struct Pair {
    /// only ever asked for integer phases
    a: SoftPhaseAccumulator,
    /// the same history, asked for either form
    b: SoftPhaseAccumulator,
}

fn history(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut sr = rate(s);
    let mut f = freq(s, sr);
    let mk = |f, sr| <SoftPhaseAccumulator as PhaseAccumulator>::new(f, sr);
    let mut p = Pair { a: mk(f, sr), b: mk(f, sr) };
    cx.note(|| format!("new({f:?}, {sr:?})"));
    let mut sh = 0u32;
    // Accumulated phase; unknown before the first step.
    let mut counter: Option<u32> = None;
    let mut steps: HashMap<(u32, u32), u32> = HashMap::new();
    let (mut wraps, mut changes) = (0, 0);
    for _ in 0..s.usize_in(2, 40) {
        match s.weighted(&[10, 3, 2, 3, 2]) {
            0 => {
                let n = s.usize_in(1, 12);
                let norm = s.chance(1, 2);
                cx.note(|| format!("{n} steps"));
                for _ in 0..n {
                    let v = p.a.next_value();
                    if norm {
                        let x = p.b.next_value_normalized();
                        ensure!((0.0..1.0).contains(&x), "normalised phase {x:?} for {v:#x}");
                        let want = v as f64 / 4_294_967_296.0;
                        ensure!((x as f64 - want).abs() <= want * U * 1.01 + RESOLUTION, "normalised phase {x:?} for {v:#x}, want {want}");
                    } else {
                        let w = p.b.next_value();
                        ensure!(w == v, "after the same history phases {v:#x} and {w:#x} differ");
                    }
                    let c = v.wrapping_sub(sh);
                    if let Some(c0) = counter {
                        let step = c.wrapping_sub(c0);
                        let e = steps.entry((f.to_bits(), sr.to_bits())).or_insert(step);
                        ensure!(*e == step, "steps of {e} and {step} at the same frequency {f:?} and rate {sr:?}");
                        ensure!(step_ok(step, f, sr), "step {step} at {f:?} Hz and rate {sr:?} (shift {sh:#x}), want {}", ideal(f, sr));
                        wraps += (c < c0) as u32;
                    }
                    counter = Some(c);
                }
            }
            1 => {
                f = freq(s, sr);
                changes += 1;
                let checked = s.chance(1, 2) && f != 0.0;
                cx.note(|| format!("set_freq({f:?}), checked {checked}"));
                if checked {
                    ensure!(set_freq(&mut p.a, f).is_ok(), "set_freq({f:?}) was rejected");
                } else {
                    p.a.set_freq_unchecked(f);
                }
                p.b.set_freq_unchecked(f);
            }
            2 => {
                let v = rate(s);
                if f < v {
                    sr = v;
                    changes += 1;
                    cx.note(|| format!("set_sr({v:?})"));
                    p.a.set_sr_unchecked(v);
                    p.b.set_sr_unchecked(v);
                }
            }
            3 => {
                sh = shift(s);
                changes += 1;
                cx.note(|| format!("set_phase_shift({sh:#x})"));
                p.a.set_phase_shift(sh);
                p.b.set_phase_shift(sh);
            }
            _ => {
                // rejected frequencies
                let bad = match s.below(3) {
                    0 => s.pick(&[0.0f32, -0.0]),
                    1 => -s.f32_log(1e-38, 1e38),
                    _ => s.pick(&[-1.0f32, -440.0, f32::NEG_INFINITY, -f32::MIN_POSITIVE, f32::from_bits(0x8000_0001)]),
                };
                cx.note(|| format!("set_freq({bad:?})"));
                for q in [&mut p.a, &mut p.b] {
                    match set_freq(q, bad) {
                        Err(FrequencyError::Zero) => ensure!(bad == 0.0, "set_freq({bad:?}) reported zero"),
                        Err(FrequencyError::Negative) => ensure!(bad < 0.0, "set_freq({bad:?}) reported negative"),
                        Err(_) => return fail(format!("set_freq({bad:?}) reported another error")),
                        Ok(()) => return fail(format!("set_freq({bad:?}) was accepted")),
                    }
                }
                cx.label("rejected frequency");
            }
        }
    }
    cx.label_if(wraps > 0, "wrapped");
    cx.nontrivial_if(wraps > 0 && changes > 0);
    Ok(())
}

/// Any positive value: the checked setter acts like the unchecked one.
fn setter(s: &mut Src, cx: &mut Ctx) -> Res {
    let sr = rate(s);
    let (f0, f) = (freq(s, sr), s.f32_any());
    cx.note(|| format!("new({f0:?}, {sr:?}); set_freq({f:?})"));
    if f.is_nan() || f < 0.0 || f == 0.0 {
        return Ok(());
    }
    let mk = || <SoftPhaseAccumulator as PhaseAccumulator>::new(f0, sr);
    let (mut a, mut b) = (mk(), mk());
    ensure!(set_freq(&mut a, f).is_ok(), "set_freq({f:?}) was rejected");
    b.set_freq_unchecked(f);
    for k in 0..4 {
        let (x, y) = (a.next_value(), b.next_value());
        ensure!(x == y, "step {k} after set_freq({f:?}): {x:#x}, after set_freq_unchecked {y:#x}");
    }
    cx.nontrivial();
    Ok(())
}

/// No loss over long runs: k steps move exactly k times the step.
fn long(s: &mut Src, cx: &mut Ctx) -> Res {
    let sr = rate(s);
    let f = freq(s, sr);
    let mut a = <SoftPhaseAccumulator as PhaseAccumulator>::new(f, sr);
    let v0 = a.next_value();
    let step = a.next_value().wrapping_sub(v0);
    cx.note(|| format!("{f:?} Hz at {sr:?}: step {step}"));
    ensure!(step_ok(step, f, sr), "step {step} at {f:?} Hz and rate {sr:?}, want {}", ideal(f, sr));
    let n = if s.chance(1, 40) { s.usize_in(60_000, 300_000) } else { s.usize_in(1000, 20_000) } as u32;
    for _ in 0..n {
        if n % 2 == 0 {
            a.next_value_normalized();
        } else {
            a.next_value();
        }
    }
    let v = a.next_value();
    let want = v0.wrapping_add(step.wrapping_mul(n.wrapping_add(2)));
    ensure!(v == want, "after {n} steps of {step} the phase is {v:#x} instead of {want:#x}");
    cx.nontrivial_if(step > 1000);
    Ok(())
}

/// Every reported phase: scaled into [0,1).
fn normalised(i: u64) -> Result<bool, Fail> {
    let v = (i as u32).wrapping_mul(0x9E37_79B1);
    let mut a = <SoftPhaseAccumulator as PhaseAccumulator>::new(0.0, 48_000.0);
    a.set_phase_shift(v);
    let w = a.next_value();
    let x = a.next_value_normalized();
    ensure!((0.0..1.0).contains(&x), "normalised phase {x:?} for {w:#x}");
    let want = w as f64 / 4_294_967_296.0;
    ensure!((x as f64 - want).abs() <= want * U * 1.01 + RESOLUTION, "normalised phase {x:?} for {w:#x}");
    Ok(w != 0)
}

/// Minutes of audio, every step checked; parameters set (to what they are, or with the shift moved) all along.
fn marathon(s: &mut Src, cx: &mut Ctx) -> Res {
    let sr = rate(s);
    let f = freq(s, sr);
    let mut a = <SoftPhaseAccumulator as PhaseAccumulator>::new(f, sr);
    let mut at = a.next_value();
    let step = a.next_value().wrapping_sub(at);
    at = at.wrapping_add(step);
    ensure!(step_ok(step, f, sr), "step {step} at {f:?} Hz and rate {sr:?}, want {}", ideal(f, sr));
    let (n, sets) = (s.usize_in(17_000_000, 20_000_000), s.chance(1, 3));
    cx.note(|| format!("{f:?} Hz at {sr:?}: {n} steps of {step}, set all along: {sets}"));
    let mut shift = 0u32;
    for k in 0..n {
        if sets {
            match k % 3 {
                0 => a.set_freq_unchecked(f),
                1 => a.set_sr_unchecked(sr),
                _ => {
                    shift = mix(k as u64) as u32;
                    a.set_phase_shift(shift)
                }
            }
        }
        at = at.wrapping_add(step);
        let v = a.next_value();
        ensure!(v == at.wrapping_add(shift), "step {k} of {step}: the phase is {v:#x} instead of {:#x}", at.wrapping_add(shift));
    }
    cx.nontrivial_if(step > 1000);
    Ok(())
}

/// Automation: the frequency, rate and shift change over and over again, thousands of times.
fn automation(s: &mut Src, cx: &mut Ctx) -> Res {
    let rates = [rate(s), rate(s)];
    let low = rates[0].min(rates[1]);
    let freqs = [freq(s, low), freq(s, low), freq(s, low)];
    let mut a = <SoftPhaseAccumulator as PhaseAccumulator>::new(freqs[0], rates[0]);
    let most = if s.chance(1, 50) { 200_000.0 } else { 3_000.0 };
    let (key, n, dense) = (s.below(0), s.f32_log(10.0, most) as u64, s.pick(&[2u64, 4, 30]));
    cx.note(|| format!("{n} steps, {freqs:?} Hz at {rates:?} in turn, about {} changes a step", 4.0 / dense as f32));
    let (mut f, mut sr, mut shift) = (freqs[0], rates[0], 0u32);
    let mut at = 0u32;
    let mut changes = 0u64;
    for k in 0..n {
        let mut r = mix(key ^ k);
        for _ in 0..4 {
            let what = r % (3 * dense);
            r /= 3 * dense;
            match what {
                0 => {
                    f = freqs[(r % 3) as usize];
                    if r & 64 == 0 || !(f > 0.0) {
                        a.set_freq_unchecked(f)
                    } else {
                        ensure!(set_freq(&mut a, f).is_ok(), "{f:?} Hz was rejected");
                    }
                }
                1 => {
                    sr = rates[(r % 2) as usize];
                    a.set_sr_unchecked(sr);
                }
                2 => {
                    shift = mix(r) as u32;
                    a.set_phase_shift(shift);
                }
                _ => continue,
            }
            changes += 1;
        }
        let now = a.next_value().wrapping_sub(shift);
        let step = now.wrapping_sub(at);
        ensure!(step_ok(step, f, sr), "after {changes} changes: step {step} at {f:?} Hz and rate {sr:?}, want {}", ideal(f, sr));
        at = now;
    }
    cx.nontrivial_if(changes > 5);
    Ok(())
}

fn main() {
    pbt::main(
        "C15",
        &[
            rand("history", 2_000_000, 20_000_000, history),
            rand("setter", 800_000, 10_000_000, setter),
            rand("long", 16_000, 200_000, long),
            rand("automation", 10_000, 200_000, automation),
            rand("marathon", 16, 400, marathon),
            sweep("normalised", 1 << 26, 1 << 32, normalised),
        ],
    );
}
