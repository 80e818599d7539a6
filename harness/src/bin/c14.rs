//! C14: envelope stages last as long as configured and follow the power curve.
use embedded_audio_tools::envelopes::{AudioRateADSR, EnvelopeState, EnvelopeState::*};
use embedded_audio_tools::float::F32Ext;
use pbt::num::U;
use pbt::*;

/// p^n as the exact value and as the library's approximation of it (micromath), which is good to a
/// few percent below 1: either is an acceptable curve, and anything between.
struct Hull {
    lo: f64,
    hi: f64,
}
fn power(lo: f64, hi: f64, n: f64) -> Hull {
    let mut h = Hull { lo: f64::MAX, hi: f64::MIN };
    let mut add = |v: f64| {
        h.lo = h.lo.min(v);
        h.hi = h.hi.max(v);
    };
    for p in [lo, 0.5 * (lo + hi), hi] {
        add(p.powf(n));
        // exponent rounding
        for m in [n as f32, (n * (1.0 + 2.0 * U)) as f32] {
            add(F32Ext::powf(p as f32, m) as f64);
        }
    }
    h
}
/// Slack for the approximation's ripple.
const RIPPLE: f64 = 4e-3;

struct Par {
    attack: f64,
    decay: f64,
    release: f64,
    sustain: f64,
    slope: f64,
    sr: f32,
}

/// Progress per tick of a stage of T seconds.
fn inc(secs: f32, sr: f32) -> f64 {
    let n = secs as f64 * sr as f64;
    if n <= 0.0 {
        return 1.0;
    }
    (1.0 / n).max(0.5 / sr as f64).min(1.0)
}

struct M {
    e: AudioRateADSR,
    p: Par,
    st: EnvelopeState,
    /// progress in the current stage, None while unspecified (retriggered attack)
    t: Option<f64>,
    n: u64,
    level: f64,
    out: f64,
}

impl M {
    fn new(a: f32, d: f32, su: f32, r: f32, sl: f32, sr: f32) -> M {
        M {
            e: AudioRateADSR::new(a, d, su, r, sl, sr),
            p: Par {
                attack: inc(a, sr),
                decay: inc(d, sr),
                release: inc(r, sr),
                sustain: su.clamp(0.0, 1.0) as f64,
                slope: sl.clamp(0.05, 20.0) as f64,
                sr,
            },
            st: Idle,
            t: Some(0.0),
            n: 0,
            level: 0.0,
            out: 0.0,
        }
    }

    fn on(&mut self) {
        // from idle the attack starts at zero; retriggering is only specified as entering attack
        self.t = if self.st == Idle { Some(0.0) } else { None };
        self.n = 0;
        self.e.trigger_on();
        self.st = Attack;
    }
    fn off(&mut self) {
        if matches!(self.st, Attack | Decay | Sustain) {
            self.level = self.out;
            self.t = Some(0.0);
            self.n = 0;
            self.st = Release;
        }
        self.e.trigger_off();
    }

    fn tick(&mut self) -> Res {
        let before = self.st;
        let v = self.e.tick() as f64;
        let after = self.e.get_state();
        let i = match before {
            Attack => self.p.attack,
            Decay => self.p.decay,
            Release => self.p.release,
            _ => {
                self.st = after;
                self.out = v;
                return Ok(());
            }
        };
        self.n += 1;
        let done = after != before;
        if let Some(t0) = self.t {
            let t = t0 + i;
            self.t = Some(t);
            // accumulated rounding of the progress
            let e = 1e-6 + self.n as f64 * U;
            let (lo, hi) = (t * (1.0 - e), t * (1.0 + e));
            let (s, su) = (self.p.slope, self.p.sustain);
            let (range, n) = match before {
                Attack => (1.0, 1.0 / s),
                Decay => (1.0 - su, s),
                _ => (self.level, s),
            };
            let h = power(lo.min(1.0), hi.min(1.0), n);
            let tol = RIPPLE * range + 3e-7;
            let what = || format!("{before:?} tick {} (progress {t:.6}, slope {s}, sustain {su}, level {})", self.n, self.level);
            // value
            let (vlo, vhi) = match before {
                Attack => (h.lo, h.hi),
                Decay => (1.0 - range * h.hi, 1.0 - range * h.lo),
                _ => (range * (1.0 - h.hi), range * (1.0 - h.lo)),
            };
            ensure!(v >= vlo - tol && v <= vhi + tol, "{}: output {v}, the curve gives {vlo:.7}..{vhi:.7}", what());
            // early end
            if done && hi < 1.0 {
                let residual = (1.0 - h.hi) * range;
                ensure!(residual <= 2e-6, "{}: the stage ended {:.1} ticks early with {residual:e} left", what(), (1.0 - t) / i);
            }
            // late end
            let late = 1.0 + 2.0 * e + 0.004;
            ensure!(done || t - i < late, "{}: the stage still runs {:.1} ticks after its end", what(), (t - 1.0) / i);
        } else {
            // retriggered: never longer than a full attack at the slowest speed
            ensure!(done || (self.n as f64) < 2.01 * self.p.sr as f64 + 3.0, "retriggered attack still runs after {} ticks", self.n);
        }
        if done {
            self.t = Some(0.0);
            self.n = 0;
        }
        self.st = after;
        self.out = v;
        Ok(())
    }
}

fn seconds(s: &mut Src, sr: f32, ticks: f32) -> f32 {
    match s.weighted(&[6, 2, 1, 1]) {
        0 => s.f32_in(1.0, ticks) / sr,
        1 => s.usize_in(1, ticks as usize) as f32 / sr,
        2 => s.f32_in(0.0, 3.0) / sr,
        _ => 0.0,
    }
}
fn slope(s: &mut Src) -> f32 {
    match s.weighted(&[3, 4, 1]) {
        0 => s.pick(&[1.0f32, 0.5, 2.0, 0.05, 20.0]),
        1 => s.f32_log(0.05, 20.0),
        _ => s.pick(&[1e-3f32, 0.0, -2.0, 100.0, 21.0, 0.049, f32::MIN_POSITIVE, 1e30, 19.9, 20.5, 0.04]),
    }
}
fn rate(s: &mut Src) -> f32 {
    match s.weighted(&[4, 1, 1]) {
        0 => s.sample_rate(1000.0, 400_000.0),
        1 => s.pick(&[1000.0f32, 1500.0, 750.0, 375.0]),
        _ => s.f32_log(1000.0, 200_000.0),
    }
}

fn history(s: &mut Src, cx: &mut Ctx) -> Res {
    let sr = rate(s);
    let max = s.pick(&[30.0f32, 120.0, 500.0]);
    let (a, d, r) = (seconds(s, sr, max), seconds(s, sr, max), seconds(s, sr, max));
    let (su, sl) = (s.f32_in(0.0, 1.0), slope(s));
    cx.note(|| format!("ADSR({a}, {d}, {su}, {r}, slope {sl}, sr {sr})"));
    let mut m = M::new(a, d, su, r, sl, sr);
    let mut stages = 0;
    for _ in 0..s.usize_in(3, 24) {
        match s.weighted(&[8, 4, 3, 1, 4]) {
            0 => {
                let n = s.usize_in(1, max as usize);
                cx.note(|| format!("{n} ticks"));
                for _ in 0..n {
                    let b = m.st;
                    m.tick()?;
                    stages += (m.st != b) as u32;
                }
            }
            1 => {
                // mostly from idle, where the attack is specified
                if m.st != Idle && !s.chance(1, 4) {
                    m.e.reset();
                    m.st = Idle;
                    m.out = 0.0;
                    cx.note(|| "reset".into());
                }
                cx.note(|| format!("gate on in {:?}", m.st));
                m.on();
            }
            2 => {
                cx.note(|| format!("gate off in {:?}", m.st));
                m.off();
            }
            3 => {
                m.e.reset();
                m.st = Idle;
                m.out = 0.0;
                cx.note(|| "reset".into());
            }
            _ => {
                let running = matches!(m.st, Attack | Decay | Release) && m.n > 0;
                match s.below(6) {
                    0 => {
                        let v = seconds(s, m.p.sr, max);
                        cx.note(|| format!("set_attack({v})"));
                        m.e.set_attack(v);
                        m.p.attack = inc(v, m.p.sr);
                        cx.label_if(running && m.st == Attack, "attack time changed during attack");
                    }
                    1 => {
                        let v = seconds(s, m.p.sr, max);
                        cx.note(|| format!("set_decay({v})"));
                        m.e.set_decay(v);
                        m.p.decay = inc(v, m.p.sr);
                        cx.label_if(running && m.st == Decay, "decay time changed during decay");
                    }
                    2 => {
                        let v = seconds(s, m.p.sr, max);
                        cx.note(|| format!("set_release({v})"));
                        m.e.set_release(v);
                        m.p.release = inc(v, m.p.sr);
                        cx.label_if(running && m.st == Release, "release time changed during release");
                    }
                    3 => {
                        let v = slope(s);
                        cx.note(|| format!("set_slope({v})"));
                        m.e.set_slope(v);
                        m.p.slope = v.clamp(0.05, 20.0) as f64;
                        cx.label_if(running, "slope changed mid-stage");
                    }
                    4 => {
                        let v = if s.chance(1, 12) { s.pick(&[-0.0f32, 1e-30, 2.0, -1.0, 1e10, f32::MAX, f32::MIN, f32::INFINITY]) } else { s.f32_in(-0.2, 1.2) };
                        cx.note(|| format!("set_sustain({v})"));
                        m.e.set_sustain(v);
                        m.p.sustain = v.clamp(0.0, 1.0) as f64;
                    }
                    _ => {
                        // only times set afterwards use the new rate
                        let v = rate(s);
                        cx.note(|| format!("set_sr({v})"));
                        m.e.set_sr(v);
                        m.p.sr = v;
                        cx.label("sample rate changed");
                    }
                }
            }
        }
    }
    cx.nontrivial_if(stages >= 2);
    Ok(())
}

/// Complete envelopes: tick counts of every stage and monotone curves.
fn complete(s: &mut Src, cx: &mut Ctx) -> Res {
    let sr = rate(s);
    let max = s.pick(&[10.0f32, 100.0, 3000.0]);
    let ticks: Vec<f32> = (0..3).map(|_| if s.chance(1, 2) { s.usize_in(1, max as usize) as f32 } else { s.f32_in(1.0, max) }).collect();
    let (su, sl) = (s.f32_in(0.05, 0.95), s.f32_log(0.05, 20.0));
    cx.note(|| format!("stages of {ticks:?} samples, sustain {su}, slope {sl}, sr {sr}"));
    // through the constructor, or configured afterwards
    let mut m = if s.chance(1, 2) {
        M::new(ticks[0] / sr, ticks[1] / sr, su, ticks[2] / sr, sl, sr)
    } else {
        let mut m = M::new(0.1, 0.1, 0.3, 0.1, 1.0, 22_050.0);
        m.e.set_sr(sr);
        m.e.set_attack(ticks[0] / sr);
        m.e.set_decay(ticks[1] / sr);
        m.e.set_release(ticks[2] / sr);
        m.e.set_slope(sl);
        m.e.set_sustain(su);
        m.p = Par {
            attack: inc(ticks[0] / sr, sr),
            decay: inc(ticks[1] / sr, sr),
            release: inc(ticks[2] / sr, sr),
            sustain: su as f64,
            slope: sl as f64,
            sr,
        };
        m
    };
    m.on();
    let mut run = |m: &mut M, stage: EnvelopeState, want: f32, rising: bool| -> Res {
        let mut n = 0u64;
        let mut prev = m.out;
        while m.st == stage {
            m.tick()?;
            n += 1;
            let ok = if rising { m.out >= prev - RIPPLE } else { m.out <= prev + RIPPLE };
            ensure!(ok, "{stage:?}: output goes from {prev} to {} at tick {n}", m.out);
            prev = m.out;
            ensure!(n < 1_000_000, "{stage:?} does not end");
        }
        // capped at two seconds
        let want = (want as f64).min(2.0 * sr as f64);
        ensure!((n as f64) <= want * 1.005 + 2.0, "{stage:?} of {want} samples took {n} ticks");
        ensure!((n as f64) >= want.floor() * 0.95 - 1.0 || stage != Attack, "{stage:?} of {want} samples took {n} ticks");
        Ok(())
    };
    run(&mut m, Attack, ticks[0], true)?;
    run(&mut m, Decay, ticks[1], false)?;
    ensure!(m.st == Sustain && m.out == m.p.sustain, "after decay: {:?} at {}", m.st, m.out);
    for _ in 0..3 {
        m.tick()?;
    }
    m.off();
    run(&mut m, Release, ticks[2], false)?;
    ensure!(m.st == Idle && m.out == 0.0, "after release: {:?} at {}", m.st, m.out);
    cx.nontrivial();
    Ok(())
}

/// Long stages, up to and above the two second cap.
fn long(s: &mut Src, cx: &mut Ctx) -> Res {
    let sr = s.pick(&[8_000.0f32, 22_050.0, 44_100.0, 48_000.0]);
    let t = s.pick(&[0.5f32, 1.0, 1.9, 2.0, 2.5, 10.0, 1000.0]);
    let sl = s.f32_log(0.05, 20.0);
    let which = s.below(3);
    let short = 3.0 / sr;
    let pick = |k| if which == k { t } else { short };
    let mut m = M::new(pick(0), pick(1), s.f32_in(0.0, 0.9), pick(2), sl, sr);
    cx.note(|| format!("{t} s {:?} at {sr}, slope {sl}", ["attack", "decay", "release"][which as usize]));
    // minutes of silence before, and minutes of sustain within the note
    let (idle, hold) = if s.chance(1, 50) { (s.usize_in(0, 1) * 17_000_000, s.usize_in(0, 1) * 17_000_000) } else { (0, 0) };
    for _ in 0..idle {
        m.tick()?;
    }
    m.on();
    let want = (t as f64).min(2.0) * sr as f64;
    let mut n = 0f64;
    let stage = [Attack, Decay, Release][which as usize];
    for _ in 0..(2.2 * sr) as usize {
        if m.st == stage {
            n += 1.0;
        }
        if m.st == Sustain {
            for _ in 0..hold {
                m.tick()?;
            }
            m.off();
            if m.level == 0.0 {
                return Ok(());
            }
        }
        m.tick()?;
        if m.st == Idle {
            break;
        }
    }
    ensure!(n <= want * 1.015 + 2.0, "{stage:?} of {t} s at {sr} took {n} ticks, want {want}");
    cx.label_if(t >= 2.0, "at or above the cap");
    cx.nontrivial();
    Ok(())
}

/// Automation: short notes while the parameters change at nearly every tick, for thousands of ticks.
fn automation(s: &mut Src, cx: &mut Ctx) -> Res {
    let sr = rate(s);
    let max = s.pick(&[6.0f32, 20.0, 60.0]);
    let times = [seconds(s, sr, max), seconds(s, sr, max), seconds(s, sr, max)];
    let slopes = [slope(s), slope(s)];
    let sustains = [s.f32_in(0.0, 1.0), s.f32_in(0.0, 1.0)];
    let most = if s.chance(1, 50) { 60_000.0 } else { 3_000.0 };
    let (key, n, dense) = (s.below(0), s.f32_log(20.0, most) as u64, s.pick(&[1u64, 4, 30]));
    cx.note(|| format!("{n} ticks at {sr}: times {times:?}, slopes {slopes:?}, sustain levels {sustains:?} in turn, density {dense}"));
    let mut m = M::new(times[0], times[1], sustains[0], times[2], slopes[0], sr);
    let mut stages = 0;
    for k in 0..n {
        let r = mix(key ^ k);
        let (t, l, c) = (times[(r >> 40) as usize % 3], sustains[(r >> 44) as usize % 2], slopes[(r >> 48) as usize % 2]);
        match r % (9 * dense) {
            0 => {
                m.e.set_attack(t);
                m.p.attack = inc(t, sr);
            }
            1 => {
                m.e.set_decay(t);
                m.p.decay = inc(t, sr);
            }
            2 => {
                m.e.set_release(t);
                m.p.release = inc(t, sr);
            }
            3 => {
                m.e.set_slope(c);
                m.p.slope = c.clamp(0.05, 20.0) as f64;
            }
            4 => {
                m.e.set_sustain(l);
                m.p.sustain = l.clamp(0.0, 1.0) as f64;
            }
            5 => {
                m.e.set_sr(sr);
            }
            _ => {}
        }
        let before = m.st;
        match (before, (r >> 20) % (8 * max as u64)) {
            (Idle, 0..=60) => m.on(),
            (Sustain, 0..=20) | (Attack | Decay, 0) => m.off(),
            (Attack | Decay | Sustain | Release, 1) => {
                m.e.reset();
                m.st = Idle;
                m.out = 0.0;
            }
            (_, 2) => m.on(),
            _ => {}
        }
        m.tick().map_err(|f| f.at(k))?;
        stages += (m.st != before) as u32;
    }
    cx.nontrivial_if(stages >= 4);
    Ok(())
}

fn main() {
    pbt::main(
        "C14",
        &[
            rand("history", 250_000, 8_000_000, history),
            rand("complete", 30_000, 1_000_000, complete),
            rand("automation", 20_000, 600_000, automation),
            rand("long", 600, 20_000, long),
        ],
    );
}
