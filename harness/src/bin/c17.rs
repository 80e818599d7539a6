//! C17: the wavetable oscillator reads its table as one interpolated period.
use embedded_audio_tools::{PhaseAccumulator, SoftPhaseAccumulator, WavetableOscillator};
use pbt::num::U;
use pbt::signal::*;
use pbt::*;

struct Table {
    a: Arena,
    t: Vec<f32>,
    lo: f64,
    hi: f64,
    /// largest step between neighbours
    slope: f64,
    peak: f64,
}
impl Table {
    fn new(t: Vec<f32>) -> Table {
        let n = t.len();
        let f = |k: usize| t[k % n] as f64;
        Table {
            a: Arena::new(&t),
            lo: t.iter().fold(f64::MAX, |m, x| m.min(*x as f64)),
            hi: t.iter().fold(f64::MIN, |m, x| m.max(*x as f64)),
            slope: (0..n).fold(0.0, |m, k| m.max((f(k + 1) - f(k)).abs())),
            peak: t.iter().fold(0.0, |m, x| m.max(x.abs() as f64)),
            t,
        }
    }
    fn check(&self, v: u32, out: f32) -> Res {
        let n = self.t.len();
        let p = norm(v) as f64;
        let pos = p * n as f64;
        let i = pos.floor() as usize;
        let fr = pos - i as f64;
        let (x, y) = (self.t[i % n] as f64, self.t[(i + 1) % n] as f64);
        let want = x * (1.0 - fr) + y * fr;
        let tol = self.slope * n as f64 * 3.0 * U + 4.0 * U * self.peak + 1e-37;
        ensure!((out as f64 - want).abs() <= tol, "table of {n} at phase {p} (position {pos}): {out:?}, want {want} (neighbours {x}, {y})");
        let e = 3.0 * U * self.peak + 1e-37;
        ensure!(out as f64 >= self.lo - e && out as f64 <= self.hi + e, "table of {n} at phase {p}: {out:?} outside {}..{}", self.lo, self.hi);
        Ok(())
    }
}

fn table(s: &mut Src, cx: &mut Ctx) -> Table {
    let n = match s.weighted(&[40, 40, 30, 9, 1]) {
        0 => s.usize_in(1, 5),
        1 => s.usize_in(2, 40),
        2 => s.pick(&[64usize, 100, 128, 255, 256, 257, 512]),
        3 => s.pick(&[1024usize, 2048, 4095, 4096, 5000]),
        _ => every_length(s.below(2112)),
    };
    let t: Vec<f32> = match s.weighted(&[3, 2, 1, 1]) {
        0 if n <= 64 => s.vec(n, |s| s.sample()),
        1 => {
            let (a, b) = (s.f32_in(-2.0, 2.0), s.f32_in(-1.0, 1.0));
            (0..n).map(|k| a * (6.283185 * k as f32 / n as f32).sin() + b).collect()
        }
        2 => {
            // an impulse: hits are unmistakable
            let at = s.usize_in(0, n - 1);
            (0..n).map(|k| if k == at { 1.0 } else { 0.0 }).collect()
        }
        _ => {
            let key = s.below(0);
            (0..n).map(|k| (mix(key ^ k as u64) >> 40) as f32 / (1 << 23) as f32 - 1.0).collect()
        }
    };
    cx.label_if(n == 1, "single sample table");
    cx.label_if(n >= 256, "large table");
    cx.note(|| format!("table of {n}: {:?}", &t[..n.min(6)]));
    Table::new(t)
}
/// Phases that hit table positions exactly, a hair beside them, and anything.
fn phases(s: &mut Src, n: usize, k: usize) -> Vec<u32> {
    s.vec(k, |s| match s.weighted(&[2, 2, 1]) {
        0 => phase(s),
        1 => {
            let i = s.usize_in(0, n - 1) as u64;
            let c = ((i << 32) / n as u64) as u32;
            c.wrapping_add((s.below(1024) as u32).wrapping_sub(512))
        }
        _ => s.below(1 << 32) as u32,
    })
}

fn scripted(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = table(s, cx);
    let ph = phases(s, t.t.len(), 16);
    let (pa, log) = ScriptPA::scripted(ph.clone());
    let mut o = WavetableOscillator::new(t.a.view(), pa);
    let mut n = 0;
    for _ in 0..s.usize_in(1, 20) {
        let (f0, s0, h0) = {
            let l = log.borrow();
            (l.freq.len(), l.sr.len(), l.shift.len())
        };
        let what = s.weighted(&[8, 1, 1, 1]);
        match what {
            0 => {
                if n >= ph.len() {
                    break;
                }
                let out = o.next();
                cx.note(|| format!("phase {:#x}: {out:?}", ph[n]));
                t.check(ph[n], out)?;
                n += 1;
            }
            1 => {
                let f = s.f32_in(0.0, 20_000.0);
                o.set_freq_unchecked(f);
                ensure!(log.borrow().freq.last().map(|x| x.to_bits()) == Some(f.to_bits()), "set_freq({f:?}) reached the phase source as {:?}", log.borrow().freq.last());
            }
            2 => {
                let f = s.f32_in(1.0, 192_000.0);
                o.set_sr_unchecked(f);
                ensure!(log.borrow().sr.last().map(|x| x.to_bits()) == Some(f.to_bits()), "set_sr({f:?}) reached the phase source as {:?}", log.borrow().sr.last());
            }
            _ => {
                let f = s.f32_in(0.0, 1.0);
                o.set_phase_shift_unchecked(f);
                let l = log.borrow();
                ensure!(l.shift.len() > h0, "phase shift {f:?} did not reach the phase source");
                let w = (f as f64 * 4_294_967_296.0) as u64 as u32;
                let d = l.shift.last().unwrap().wrapping_sub(w);
                ensure!(d.min(d.wrapping_neg()) <= 512, "phase shift {f:?} reached the phase source as {:#x}", l.shift.last().unwrap());
            }
        }
        let l = log.borrow();
        ensure!(l.steps == n, "{n} samples advanced the phase {} times", l.steps);
        ensure!(what == 1 || l.freq.len() == f0, "the frequency was changed by something else");
        ensure!(what == 2 || l.sr.len() == s0, "the sample rate was changed by something else");
        ensure!(what == 3 || l.shift.len() == h0, "the phase shift was changed by something else");
    }
    ensure!(t.a.guards_intact(), "memory outside the table was modified");
    cx.nontrivial_if(n >= 3);
    Ok(())
}

/// The real accumulator next to a twin that is only stepped.
fn soft(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = table(s, cx);
    let sr = s.pick(&[48_000.0f32, 44_100.0, 1000.0]);
    let f = s.f32_in(0.0, sr * 0.9);
    let mk = || <SoftPhaseAccumulator as PhaseAccumulator>::new(f, sr);
    let mut o = WavetableOscillator::new(t.a.view(), mk());
    let mut twin = mk();
    cx.note(|| format!("{f:?} Hz at {sr}"));
    let (mut n, mut changes) = (0, 0);
    for _ in 0..s.usize_in(2, 20) {
        match s.weighted(&[8, 2, 1, 2]) {
            0 => {
                for _ in 0..s.usize_in(1, 10) {
                    let v = twin.next_value();
                    t.check(v, o.next())?;
                    n += 1;
                }
                cx.note(|| "samples".into());
            }
            1 => {
                let f = s.f32_in(0.0, 900.0);
                cx.note(|| format!("set_freq({f})"));
                o.set_freq_unchecked(f);
                twin.set_freq_unchecked(f);
                changes += 1;
            }
            2 => {
                let f = s.pick(&[48_000.0f32, 44_100.0, 8000.0]);
                cx.note(|| format!("set_sr({f})"));
                o.set_sr_unchecked(f);
                twin.set_sr_unchecked(f);
                changes += 1;
            }
            _ => {
                let k = s.below(8) as u32;
                cx.note(|| format!("shift {k}/8"));
                o.set_phase_shift_unchecked(k as f32 / 8.0);
                twin.set_phase_shift(k << 29);
                changes += 1;
            }
        }
    }
    cx.nontrivial_if(n >= 5 && changes >= 1);
    Ok(())
}

/// Long runs: sample for sample in step with the twin, the frequency changing now and then.
fn long(s: &mut Src, cx: &mut Ctx) -> Res {
    let sr = 48_000.0;
    let f = s.f32_log(0.01, 20_000.0);
    let mk = || <SoftPhaseAccumulator as PhaseAccumulator>::new(f, sr);
    let mut twin = mk();
    let t = table(s, cx);
    let mut o = WavetableOscillator::new(t.a.view(), mk());
    let n = if s.chance(1, 50) { s.usize_in(17_000_000, 20_000_000) } else { s.usize_in(66_000, 200_000) } as u64;
    let key = s.below(0);
    cx.note(|| format!("{f:?} Hz, {n} samples"));
    for k in 0..n {
        let r = mix(key ^ k);
        if r % 5000 == 0 {
            let f = (r >> 48) as f32 / 8.0;
            o.set_freq_unchecked(f);
            twin.set_freq_unchecked(f);
        }
        t.check(twin.next_value(), o.next())?;
    }
    cx.nontrivial();
    Ok(())
}

/// Tables longer than a 16-bit index.
fn large(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = big_length(s);
    let key = s.below(0);
    let t = Table::new((0..n).map(|k| (mix(key ^ k as u64) >> 40) as f32 / (1 << 23) as f32 - 1.0).collect());
    let ph = phases(s, n, 40);
    let (pa, _) = ScriptPA::scripted(ph.clone());
    let mut o = WavetableOscillator::new(t.a.view(), pa);
    for v in ph {
        t.check(v, o.next())?;
    }
    cx.note(|| format!("table of {n} samples, 40 phases"));
    cx.nontrivial();
    Ok(())
}

/// Every table size with phases around every table position.
fn positions(i: u64) -> Result<bool, Fail> {
    let n = (i % 300) as usize + 1;
    let t = Table::new((0..n).map(|k| (mix(k as u64 + 77) >> 40) as f32 / (1 << 23) as f32 - 1.0).collect());
    let off = [0i64, 1, -1, 64, -64, 300, -300, 1 << 20, -(1 << 20), 1 << 24][(i / 300 % 10) as usize];
    let ph: Vec<u32> = (0..n as u64).map(|k| (((k << 32) / n as u64) as i64 + off) as u32).collect();
    let (pa, _) = ScriptPA::scripted(ph.clone());
    let mut o = WavetableOscillator::new(t.a.view(), pa);
    for v in ph {
        t.check(v, o.next())?;
    }
    Ok(n > 1)
}

fn main() {
    pbt::main(
        "C17",
        &[
            rand("scripted", 1_600_000, 20_000_000, scripted),
            rand("soft", 800_000, 10_000_000, soft),
            rand("long", 400, 12_000, long),
            rand("large", 2_000, 60_000, large),
            sweep("positions", 3000, 3000, positions),
        ],
    );
}
