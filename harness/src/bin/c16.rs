//! C16: oscillator waveforms are the right function of phase and stay within -1..1.
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::{FunctionalOscillator, PhaseAccumulator, SoftPhaseAccumulator};
use pbt::signal::*;
use pbt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum W {
    Sine,
    Rect,
    Saw,
    Tri,
}
const ALL: [W; 4] = [W::Sine, W::Rect, W::Saw, W::Tri];
fn lib(w: W) -> Waveform {
    match w {
        W::Sine => Waveform::Sine,
        W::Rect => Waveform::Rectangle,
        W::Saw => Waveform::Sawtooth,
        W::Tri => Waveform::Triangle,
    }
}

fn check(w: W, v: u32, out: f32) -> Res {
    let p = norm(v) as f64;
    let (want, tol, lim) = match w {
        W::Saw => (2.0 * p - 1.0, 2e-7, 1.0),
        W::Tri => (if p < 0.5 { 4.0 * p - 1.0 } else { 3.0 - 4.0 * p }, 4e-7, 1.0),
        W::Sine => ((2.0 * std::f64::consts::PI * p).sin(), 2e-4, 1.0001),
        W::Rect => {
            // within half an ulp of the middle the side depends on rounding
            if v.wrapping_sub((1 << 31) - 256) < 512 && v % 256 != 0 {
                ensure!(out == 1.0 || out == -1.0, "{w:?} at phase {p} is {out:?}");
                return Ok(());
            }
            (if p < 0.5 { -1.0 } else { 1.0 }, 0.0, 1.0)
        }
    };
    ensure!((out as f64 - want).abs() <= tol, "{w:?} at phase {p} ({v:#x}) is {out:?}, want {want}");
    ensure!(out.abs() <= lim, "{w:?} at phase {p} ({v:#x}) is {out:?}");
    Ok(())
}

fn shift_near(got: u32, want: f32) -> bool {
    let w = (want as f64 * 4_294_967_296.0) as u64 as u32;
    let d = got.wrapping_sub(w);
    d.min(d.wrapping_neg()) <= 512
}

/// A user-supplied phase source: what is it told, how often is it stepped.
fn scripted(s: &mut Src, cx: &mut Ctx) -> Res {
    let phases = s.vec(24, phase);
    let (pa, log) = ScriptPA::scripted(phases.clone());
    let mut o = FunctionalOscillator::new(pa);
    let mut w = W::Sine;
    let mut n = 0usize;
    let mut waves = 0;
    for _ in 0..s.usize_in(1, 24) {
        let (f0, s0, h0) = {
            let l = log.borrow();
            (l.freq.len(), l.sr.len(), l.shift.len())
        };
        let what = s.weighted(&[8, 3, 1, 1, 2]);
        match what {
            0 => {
                if n >= phases.len() {
                    break;
                }
                let out = o.next();
                cx.note(|| format!("{w:?} at {:#x}: {out:?}", phases[n]));
                check(w, phases[n], out)?;
                n += 1;
            }
            1 => {
                w = s.pick(&ALL);
                waves += 1;
                cx.note(|| format!("set_wave({w:?})"));
                o.set_wave(lib(w));
            }
            2 => {
                let f = s.f32_in(0.0, 20_000.0);
                o.set_freq_unchecked(f);
                ensure!(log.borrow().freq.last().map(|x| x.to_bits()) == Some(f.to_bits()), "set_freq({f:?}) reached the phase source as {:?}", log.borrow().freq.last());
            }
            3 => {
                let f = s.f32_in(1.0, 192_000.0);
                o.set_sr_unchecked(f);
                ensure!(log.borrow().sr.last().map(|x| x.to_bits()) == Some(f.to_bits()), "set_sr({f:?}) reached the phase source as {:?}", log.borrow().sr.last());
            }
            _ => {
                let f = s.f32_in(0.0, 1.0);
                cx.note(|| format!("phase shift {f}"));
                o.set_phase_shift_unchecked(f);
                let l = log.borrow();
                ensure!(l.shift.len() > h0, "phase shift {f:?} did not reach the phase source");
                ensure!(shift_near(*l.shift.last().unwrap(), f), "phase shift {f:?} reached the phase source as {:#x}", l.shift.last().unwrap());
            }
        }
        let l = log.borrow();
        ensure!(l.steps == n, "{n} samples advanced the phase {} times (last {w:?})", l.steps);
        ensure!(what == 2 || l.freq.len() == f0, "the frequency was changed by something else");
        ensure!(what == 3 || l.sr.len() == s0, "the sample rate was changed by something else");
        ensure!(what == 4 || l.shift.len() == h0, "the phase shift was changed by something else");
    }
    cx.nontrivial_if(n >= 3 && waves >= 1);
    Ok(())
}

/// The real phase accumulator, next to a twin that is only stepped.
fn soft(s: &mut Src, cx: &mut Ctx) -> Res {
    let sr = s.pick(&[48_000.0f32, 44_100.0, 1000.0, 96_000.0]);
    let f = s.f32_in(0.0, sr * 0.9);
    let mk = || <SoftPhaseAccumulator as PhaseAccumulator>::new(f, sr);
    let mut o = FunctionalOscillator::new(mk());
    let mut twin = mk();
    let mut w = W::Sine;
    cx.note(|| format!("{f:?} Hz at {sr}"));
    let (mut n, mut changes) = (0, 0);
    for _ in 0..s.usize_in(2, 24) {
        match s.weighted(&[8, 3, 2, 1, 2]) {
            0 => {
                for _ in 0..s.usize_in(1, 10) {
                    let v = twin.next_value();
                    let out = o.next();
                    check(w, v, out)?;
                    n += 1;
                }
                cx.note(|| "samples".into());
            }
            1 => {
                w = s.pick(&ALL);
                cx.note(|| format!("set_wave({w:?})"));
                o.set_wave(lib(w));
                changes += 1;
            }
            2 => {
                let f = s.f32_in(0.0, 900.0);
                cx.note(|| format!("set_freq({f})"));
                o.set_freq_unchecked(f);
                twin.set_freq_unchecked(f);
                changes += 1;
            }
            3 => {
                let f = s.pick(&[48_000.0f32, 44_100.0, 8000.0]);
                cx.note(|| format!("set_sr({f})"));
                o.set_sr_unchecked(f);
                twin.set_sr_unchecked(f);
                changes += 1;
            }
            _ => {
                // eighths are exact in every way of computing the shift
                let k = s.below(8) as u32;
                cx.note(|| format!("shift {k}/8"));
                o.set_phase_shift_unchecked(k as f32 / 8.0);
                twin.set_phase_shift(k << 29);
                changes += 1;
            }
        }
    }
    cx.nontrivial_if(n >= 5 && changes >= 1);
    Ok(())
}

/// Long runs: sample for sample in step with the twin, the waveform changing now and then.
fn long(s: &mut Src, cx: &mut Ctx) -> Res {
    let sr = 48_000.0;
    let f = s.f32_log(0.01, 20_000.0);
    let mk = || <SoftPhaseAccumulator as PhaseAccumulator>::new(f, sr);
    let mut twin = mk();
    let mut o = FunctionalOscillator::new(mk());
    let mut w = W::Sine;
    let n = if s.chance(1, 50) { s.usize_in(17_000_000, 20_000_000) } else { s.usize_in(66_000, 200_000) } as u64;
    let key = s.below(0);
    cx.note(|| format!("{f:?} Hz, {n} samples"));
    for k in 0..n {
        let r = mix(key ^ k);
        if r % 5000 == 0 {
            w = ALL[(r >> 40) as usize % 4];
            o.set_wave(lib(w));
        }
        check(w, twin.next_value(), o.next())?;
    }
    cx.nontrivial();
    Ok(())
}

/// Every normalised phase (24 bit and finer near zero), every waveform.
fn shapes(i: u64) -> Result<bool, Fail> {
    let w = ALL[(i % 4) as usize];
    let v = ((i / 4) as u32).wrapping_mul(0x9E37_79B1);
    let (pa, _) = (FixedPA(v), ());
    let mut o = FunctionalOscillator::new(pa);
    o.set_wave(lib(w));
    check(w, v, o.next())?;
    Ok(true)
}
struct FixedPA(u32);
impl PhaseAccumulator for FixedPA {
    type Object = FixedPA;
    fn new(_: f32, _: f32) -> FixedPA {
        FixedPA(0)
    }
    fn set_sr_unchecked(&mut self, _: f32) {}
    fn set_freq_unchecked(&mut self, _: f32) {}
    fn set_phase_shift(&mut self, _: u32) {}
    fn next_value(&mut self) -> u32 {
        self.0
    }
    fn next_value_normalized(&mut self) -> f32 {
        norm(self.0)
    }
}

fn main() {
    pbt::main(
        "C16",
        &[
            rand("scripted", 2_000_000, 20_000_000, scripted),
            rand("soft", 1_200_000, 12_000_000, soft),
            rand("long", 400, 12_000, long),
            sweep("shapes", 1 << 25, 1 << 34, shapes),
        ],
    );
}
