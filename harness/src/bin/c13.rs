//! C13: the envelope obeys its gate protocol and stays within 0..1 in every history.
use embedded_audio_tools::envelopes::{AudioRateADSR, EnvelopeState, EnvelopeState::*};
use pbt::*;

/// Non-monotonicity of the library's approximated power function.
const RIPPLE: f32 = 4e-3;

struct M {
    e: AudioRateADSR,
    /// gets the same history without the gate offs and resets that have to do nothing
    twin: AudioRateADSR,
    st: EnvelopeState,
    sustain: f32,
    /// last output
    out: f32,
    /// last output when the gate went off
    held: f32,
    /// previous release output while parameters stay unchanged
    prev: Option<f32>,
}

fn seconds(s: &mut Src, sr: f32) -> f32 {
    match s.weighted(&[6, 3, 2, 1, 1]) {
        0 => s.f32_in(0.0, 40.0) / sr,
        1 => s.f32_in(0.5, 3.0) / sr,
        2 => 0.0,
        3 => s.f32_log(1e-7, 100.0),
        _ => s.f32_in(0.0, 400.0) / sr,
    }
}
fn level(s: &mut Src) -> f32 {
    match s.weighted(&[16, 4, 1, 1]) {
        0 => s.f32_in(0.0, 1.0),
        1 => s.f32_in(-0.5, 1.5),
        2 => 1.0 - s.f32_log(1e-7, 1e-2),
        _ => s.pick(&[-0.0f32, 1e-30, 2.0, -1.0, 1e10, f32::MAX, f32::MIN, f32::INFINITY]),
    }
}
fn slope(s: &mut Src) -> f32 {
    match s.weighted(&[3, 3, 1]) {
        0 => s.pick(&[1.0f32, 0.5, 2.0, 0.05, 20.0]),
        1 => s.f32_log(0.05, 20.0),
        _ => s.pick(&[0.0f32, -1.0, 1e-3, 100.0, 1e6, f32::MIN_POSITIVE, 1e30, 19.9, 20.5, 0.04]),
    }
}
fn rate(s: &mut Src) -> f32 {
    match s.weighted(&[4, 2, 1]) {
        0 => s.sample_rate(1.0, 400_000.0),
        1 => s.pick(&[100.0f32, 1.0, 1000.0, 750.0, 375.0, 2.0]),
        _ => s.f32_log(1.0, 400_000.0),
    }
}

fn tick(m: &mut M, cx: &mut Ctx) -> Res {
    let before = m.st;
    let v = m.e.tick();
    let after = m.e.get_state();
    let (tv, ts) = (m.twin.tick(), m.twin.get_state());
    ensure!(
        tv.to_bits() == v.to_bits() && ts == after,
        "after the same history without the ineffective gate offs and resets the output is {tv:?} ({ts:?}) instead of {v:?} ({after:?})"
    );
    ensure!(v >= 0.0 && v <= 1.0, "tick in {before:?} returned {v:?}");
    match before {
        Idle => {
            ensure!(v == 0.0, "idle output is {v:?}");
            ensure!(after == Idle, "a tick moved the envelope from idle to {after:?}");
        }
        Sustain => {
            ensure!(v == m.sustain, "sustain output is {v:?}, the sustain level is {:?}", m.sustain);
            ensure!(after == Sustain, "a tick moved the envelope from sustain to {after:?}");
        }
        Attack => {
            ensure!(after == Attack || after == Decay, "a tick moved the envelope from attack to {after:?}");
            ensure!((after == Decay) == (v == 1.0), "attack output {v:?} left the envelope in {after:?}");
            cx.label_if(after == Decay, "attack finished");
        }
        Decay => {
            ensure!(after == Decay || after == Sustain, "a tick moved the envelope from decay to {after:?}");
            ensure!(v >= m.sustain, "decay output {v:?} is below the sustain level {:?}", m.sustain);
            ensure!((after == Sustain) == (v == m.sustain), "decay output {v:?} with sustain {:?} left the envelope in {after:?}", m.sustain);
            cx.label_if(after == Sustain, "decay finished");
        }
        Release => {
            ensure!(after == Release || after == Idle, "a tick moved the envelope from release to {after:?}");
            ensure!((after == Idle) == (v == 0.0), "release output {v:?} left the envelope in {after:?}");
            ensure!(v <= m.held, "release output {v:?} is above {:?}, the last output before gate off", m.held);
            if let Some(p) = m.prev {
                ensure!(v <= p + RIPPLE * m.held, "release output rises from {p:?} to {v:?}");
            }
            m.prev = Some(v);
            cx.label_if(after == Idle, "release finished");
        }
    }
    m.out = v;
    m.st = after;
    Ok(())
}

fn step(m: &mut M, op: usize, s: &mut Src, sr: &mut f32, cx: &mut Ctx) -> Res {
    match op {
        0 => {
            let n = s.usize_in(1, 30);
            cx.note(|| format!("{n} ticks"));
            for _ in 0..n {
                tick(m, cx)?;
            }
        }
        1 => {
            cx.note(|| "gate on".into());
            m.e.trigger_on();
            m.twin.trigger_on();
            let st = m.e.get_state();
            ensure!(st == Attack, "gate on in {:?} led to {st:?}", m.st);
            cx.label_if(m.st == Decay || m.st == Sustain || m.st == Release, "retriggered");
            m.st = st;
        }
        2 => {
            cx.note(|| "gate off".into());
            let want = match m.st {
                Attack | Decay | Sustain => Release,
                x => x,
            };
            m.e.trigger_off();
            if want != m.st {
                m.twin.trigger_off();
            } else {
                cx.label("ineffective gate off");
            }
            let st = m.e.get_state();
            ensure!(st == want, "gate off in {:?} led to {st:?}", m.st);
            if st == Release && m.st != Release {
                m.held = m.out;
                m.prev = None;
                cx.label(match m.st {
                    Attack => "gate off during attack",
                    Decay => "gate off during decay",
                    _ => "gate off during sustain",
                });
            }
            m.st = st;
        }
        3 => {
            cx.note(|| "reset".into());
            m.e.reset();
            if m.st != Idle {
                m.twin.reset();
            }
            let st = m.e.get_state();
            ensure!(st == Idle, "reset in {:?} led to {st:?}", m.st);
            m.st = st;
            m.out = 0.0;
        }
        _ => {
            match s.below(6) {
                0 => {
                    let v = level(s);
                    cx.note(|| format!("set_sustain({v})"));
                    m.e.set_sustain(v);
                    m.twin.set_sustain(v);
                    m.sustain = v.clamp(0.0, 1.0);
                }
                1 => {
                    let v = seconds(s, *sr);
                    cx.note(|| format!("set_attack({v})"));
                    m.e.set_attack(v);
                    m.twin.set_attack(v);
                }
                2 => {
                    let v = seconds(s, *sr);
                    cx.note(|| format!("set_decay({v})"));
                    m.e.set_decay(v);
                    m.twin.set_decay(v);
                }
                3 => {
                    let v = seconds(s, *sr);
                    cx.note(|| format!("set_release({v})"));
                    m.e.set_release(v);
                    m.twin.set_release(v);
                }
                4 => {
                    let v = slope(s);
                    cx.note(|| format!("set_slope({v})"));
                    m.e.set_slope(v);
                    m.twin.set_slope(v);
                }
                _ => {
                    *sr = rate(s);
                    cx.note(|| format!("set_sr({sr})"));
                    m.e.set_sr(*sr);
                    m.twin.set_sr(*sr);
                }
            }
            m.prev = None;
            cx.label("parameter changed");
        }
    }
    let st = m.e.get_state();
    ensure!(st == m.st, "the state changed from {:?} to {st:?} without a reason", m.st);
    Ok(())
}

fn history(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut sr = rate(s);
    let (a, d, su, r, sl) = (seconds(s, sr), seconds(s, sr), level(s), seconds(s, sr), slope(s));
    cx.note(|| format!("ADSR({a}, {d}, {su}, {r}, slope {sl}, sr {sr})"));
    let mut m = M {
        e: AudioRateADSR::new(a, d, su, r, sl, sr),
        twin: AudioRateADSR::new(a, d, su, r, sl, sr),
        st: Idle,
        sustain: su.clamp(0.0, 1.0),
        out: 0.0,
        held: 0.0,
        prev: None,
    };
    ensure!(m.e.get_state() == Idle, "a new envelope is in {:?}", m.e.get_state());
    let n = s.usize_in(2, 40);
    let mut gates = 0;
    for _ in 0..n {
        let op = s.weighted(&[10, 5, 4, 1, 4]);
        gates += (op == 1 || op == 2) as u32;
        step(&mut m, op, s, &mut sr, cx)?;
    }
    cx.nontrivial_if(gates >= 2);
    Ok(())
}

/// Complete on/off cycles at every sustain level and slope, with odd stage lengths.
fn cycles(s: &mut Src, cx: &mut Ctx) -> Res {
    let sr = s.pick(&[48_000.0f32, 44_100.0, 100.0]);
    let st = |s: &mut Src| s.f32_in(0.0, 60.0) / sr;
    let (a, d, r, su, sl) = (st(s), st(s), st(s), level(s), slope(s));
    cx.note(|| format!("ADSR({a}, {d}, {su}, {r}, slope {sl}, sr {sr})"));
    let mut m = M { e: AudioRateADSR::new(a, d, su, r, sl, sr), twin: AudioRateADSR::new(a, d, su, r, sl, sr), st: Idle, sustain: su.clamp(0.0, 1.0), out: 0.0, held: 0.0, prev: None };
    let mut x = sr;
    for _ in 0..s.usize_in(1, 3) {
        step(&mut m, 1, s, &mut x, cx)?;
        let n = s.usize_in(0, 150);
        for _ in 0..n {
            tick(&mut m, cx)?;
        }
        step(&mut m, 2, s, &mut x, cx)?;
        let n = s.usize_in(0, 150);
        for _ in 0..n {
            tick(&mut m, cx)?;
        }
    }
    cx.nontrivial();
    Ok(())
}

/// Notes held, idled and repeated for a long time: nothing happens by itself.
fn held(s: &mut Src, cx: &mut Ctx) -> Res {
    let sr = rate(s);
    let st = |s: &mut Src| s.f32_in(0.0, 20.0) / sr;
    let (a, d, r, su, sl) = (st(s), st(s), st(s), level(s), slope(s));
    cx.note(|| format!("ADSR({a}, {d}, {su}, {r}, slope {sl}, sr {sr})"));
    let mk = || AudioRateADSR::new(a, d, su, r, sl, sr);
    let mut m = M { e: mk(), twin: mk(), st: Idle, sustain: su.clamp(0.0, 1.0), out: 0.0, held: 0.0, prev: None };
    let mut x = sr;
    let hold = s.usize_in(66_000, 200_000);
    let idle = s.usize_in(0, 70_000);
    for _ in 0..idle {
        tick(&mut m, cx)?;
    }
    step(&mut m, 1, s, &mut x, cx)?;
    for _ in 0..hold {
        tick(&mut m, cx)?;
    }
    ensure!(m.st == Sustain || sr <= 1.0 || sr > 48_000.0, "after {hold} ticks the note is in {:?}", m.st);
    step(&mut m, 2, s, &mut x, cx)?;
    for _ in 0..200 {
        tick(&mut m, cx)?;
    }
    // many short notes
    for _ in 0..s.usize_in(0, 800) {
        step(&mut m, 1, s, &mut x, cx)?;
        tick(&mut m, cx)?;
        step(&mut m, 2, s, &mut x, cx)?;
        tick(&mut m, cx)?;
    }
    cx.note(|| format!("idle {idle}, held {hold} ticks"));
    cx.nontrivial();
    Ok(())
}

/// Minutes of audio: more ticks than a float or a 24-bit counter can tell apart, in one state or over millions of notes.
fn marathon(s: &mut Src, cx: &mut Ctx) -> Res {
    let sr = rate(s);
    let st = |s: &mut Src| s.f32_in(0.0, 3.0) / sr;
    let (a, d, r, su, sl) = (st(s), st(s), st(s), level(s), slope(s));
    cx.note(|| format!("ADSR({a}, {d}, {su}, {r}, slope {sl}, sr {sr})"));
    let mk = || AudioRateADSR::new(a, d, su, r, sl, sr);
    let mut m = M { e: mk(), twin: mk(), st: Idle, sustain: su.clamp(0.0, 1.0), out: 0.0, held: 0.0, prev: None };
    let mut x = sr;
    let n = s.usize_in(17_000_000, 20_000_000);
    match s.below(3) {
        0 => {
            cx.note(|| format!("idle for {n} ticks"));
            for _ in 0..n {
                tick(&mut m, cx)?;
            }
        }
        1 => {
            step(&mut m, 1, s, &mut x, cx)?;
            cx.note(|| format!("held for {n} ticks"));
            for _ in 0..n {
                tick(&mut m, cx)?;
            }
        }
        _ => {
            cx.note(|| format!("{} short notes", n / 4));
            for k in 0..n / 4 {
                let quiet = &mut Ctx::default();
                step(&mut m, 1, s, &mut x, quiet)?;
                tick(&mut m, quiet)?;
                tick(&mut m, quiet)?;
                step(&mut m, if k % 7 == 0 { 3 } else { 2 }, s, &mut x, quiet)?;
                tick(&mut m, quiet)?;
            }
        }
    }
    // and it still works
    for op in [1, 0, 0, 2, 0, 0, 3, 0, 1, 0] {
        step(&mut m, op, s, &mut x, cx)?;
    }
    cx.nontrivial();
    Ok(())
}

fn main() {
    pbt::main("C13", &[rand("history", 600_000, 20_000_000, history), rand("cycles", 200_000, 8_000_000, cycles), rand("held", 600, 20_000, held), rand("marathon", 9, 200, marathon)]);
}
