//! C07: the comb filter implements the damped feedback comb equation.
use embedded_audio_tools::Comb;
use pbt::num::U;
use pbt::signal::*;
use pbt::*;

struct Model {
    c: Comb,
    buf: usize,
    off: usize,
    len: usize,
    pos: usize,
    damp: f64,
    fb: f64,
    /// filter state and how far the real one may be away from it
    s: f64,
    s_err: f64,
}

/// One tick checked against the memory as it was just before.
fn tick(m: &mut Model, arenas: &[Arena], x: f32) -> Result<f32, Fail> {
    let a = &arenas[m.buf];
    let at = m.off + m.pos;
    let before = a.bits(at);
    let out = m.c.tick(x);
    ensure!(out == f32::from_bits(before), "tick returned {out:?}, the sample stored {} ticks ago is {:?}", m.len, f32::from_bits(before));
    let o = out as f64;
    let (d, fb) = (m.damp, m.fb);
    let s = o * (1.0 - d) + m.s * d;
    m.s_err = m.s_err * d.abs() + 6.0 * U * ((o * (1.0 - d)).abs() + o.abs() * (d.abs() + 1.0) + (m.s * d).abs()) + 1e-44;
    m.s = s;
    let want = x as f64 + fb * s;
    let tol = fb.abs() * m.s_err + 4.0 * U * (x.abs() as f64 + (fb * s).abs()) + 1e-44;
    let got = a.at(at) as f64;
    ensure!((got - want).abs() <= tol, "stored {got:?}, want {want:?} (within {tol:e}): input {x}, output {out}, filter state {s}, feedback {fb}, dampening {d}");
    m.pos = (m.pos + 1) % m.len;
    Ok(out)
}

fn history(s: &mut Src, cx: &mut Ctx) -> Res {
    let n_ar = s.usize_in(1, 3);
    let mut arenas = vec![];
    for _ in 0..n_ar {
        let len = length(s, 1);
        let c = if s.chance(1, 2) { vec![0.0; len] } else { s.vec(len, |s| s.sample()) };
        arenas.push(Arena::new(&c));
    }
    let region = |s: &mut Src, arenas: &[Arena]| {
        let b = s.below(n_ar as u64) as usize;
        let n = arenas[b].len();
        if s.chance(1, 4) {
            let off = s.usize_in(0, n - 1);
            (b, off, s.usize_in(1, n - off))
        } else {
            (b, 0, n)
        }
    };
    let (b, off, len) = region(s, &arenas);
    let mut ms = vec![Model { c: Comb::new(arenas[b].part_mut(off, len)), buf: b, off, len, pos: 0, damp: 0.5, fb: 0.5, s: 0.0, s_err: 0.0 }];
    cx.note(|| format!("buffers {:?}, comb on {b}[{off}..][..{len}]", arenas.iter().map(|a| a.len()).collect::<Vec<_>>()));
    let steps = s.usize_in(1, 40);
    let (mut changes, mut fed) = (0, false);
    for _ in 0..steps {
        let k = s.below(ms.len() as u64) as usize;
        match s.weighted(&[9, 2, 2, 1, 1]) {
            0 => {
                let n = s.usize_in(1, 12);
                for _ in 0..n {
                    let x = if s.chance(1, 4) { 0.0 } else { s.loud() };
                    cx.note(|| format!("comb{k}.tick({x:?})"));
                    let m = &mut ms[k];
                    let before: Vec<Vec<u32>> = arenas.iter().map(|a| a.content()).collect();
                    let at = (m.buf, m.off + m.pos);
                    let o = tick(m, &arenas, x)?;
                    fed |= o != 0.0;
                    // unstable parameters: stop long before the f32 range ends
                    if m.s.abs() > 1e25 || arenas[at.0].at(at.1).abs() > 1e25 {
                        cx.label("grew without bound");
                        return Ok(());
                    }
                    for (i, a) in arenas.iter().enumerate() {
                        ensure!(a.guards_intact(), "memory outside buffer {i} was modified");
                        let now = a.content();
                        for j in 0..now.len() {
                            ensure!(now[j] == before[i][j] || (i, j) == at, "tick at element {} also changed element {j} of buffer {i}", at.1);
                        }
                    }
                }
            }
            1 => {
                let v = if s.chance(1, 6) { s.f32_in(-1.0, 1.5) } else { s.f32_in(0.0, 1.0) };
                cx.note(|| format!("comb{k}.set_dampening({v})"));
                ms[k].c.set_dampening(v);
                ms[k].damp = v as f64;
                changes += 1;
            }
            2 => {
                let v = s.f32_in(-1.1, 1.1);
                cx.note(|| format!("comb{k}.set_feedback({v})"));
                ms[k].c.set_feedback(v);
                ms[k].fb = v as f64;
                changes += 1;
            }
            3 => {
                let (b, off, len) = region(s, &arenas);
                cx.note(|| format!("comb{k}.change_buffer({b}[{off}..][..{len}])"));
                let m = &mut ms[k];
                let before: Vec<Vec<u32>> = arenas.iter().map(|a| a.content()).collect();
                m.c.change_buffer(arenas[b].part_mut(off, len));
                if m.pos >= len {
                    m.pos = 0;
                    cx.label("attached a buffer shorter than the position");
                }
                (m.buf, m.off, m.len) = (b, off, len);
                ensure!(before == arenas.iter().map(|a| a.content()).collect::<Vec<_>>(), "attaching a buffer changed memory");
                cx.label("attached another buffer");
                changes += 1;
            }
            _ => {
                if ms.len() < 3 {
                    let m = &ms[k];
                    let c = Model { c: m.c, ..*m };
                    ms.push(c);
                    cx.note(|| format!("comb{} = copy of comb{k}", ms.len() - 1));
                }
                let m = &mut ms[k];
                let p = m.c.get_ptr_slice_mut();
                ensure!(p.len() == m.len && p as *mut f32 == unsafe { arenas[m.buf].ptr().add(m.off) }, "raw slice is not the attached buffer");
            }
        }
    }
    cx.label_if(changes > 0, "parameters or buffer changed");
    cx.nontrivial_if(fed && changes > 0);
    Ok(())
}

/// Realistic lengths, long runs, exact equation at every tick, parameter automation.
fn long(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = match s.weighted(&[2, 3]) {
        0 => s.pick(&[1usize, 2, 255, 256, 257, 1116, 1188, 1277, 1356, 1422, 1491, 1557, 1617, 4096]),
        _ => every_length(s.below(EVERY_LENGTH)),
    };
    let (len, turns) = if s.chance(1, 30) { (big_length(s), 2) } else { (len, 4) };
    let arenas = [Arena::new(&vec![0.0; len])];
    let mut m = Model { c: Comb::new(arenas[0].view_mut()), buf: 0, off: 0, len, pos: 0, damp: 0.5, fb: 0.5, s: 0.0, s_err: 0.0 };
    let key = s.below(0);
    let every = s.usize_in(1, 3000);
    let level = if s.chance(1, 3) { s.f32_log(1e-12, 1e9) } else { 1.0 };
    let (longest, extra) = (s.pick(&[0u64, 30, 2_000, 20_000]), if s.chance(1, 4) { 20_000 } else { 10 });
    let mut passages = Passages::new(key, longest);
    cx.note(|| format!("length {len}, {turns} turns and {extra} ticks, automation every {every} ticks, passages up to {longest}"));
    for t in 0..turns * len + extra {
        let r = mix(key ^ t as u64);
        if t % every == every - 1 {
            if r & 1 == 0 {
                let v = (r >> 40) as f32 / (1u64 << 24) as f32;
                m.c.set_dampening(v);
                m.damp = v as f64;
            } else {
                let v = ((r >> 40) as f32 / (1u64 << 23) as f32) - 1.0;
                m.c.set_feedback(v);
                m.fb = v as f64;
            }
        }
        let x = level * if longest > 0 { passages.next() } else { ((r >> 8) as u32 as f32 / 2147483648.0) - 1.0 };
        tick(&mut m, &arenas, x)?;
    }
    ensure!(arenas[0].guards_intact(), "memory outside the buffer was modified");
    cx.nontrivial();
    Ok(())
}

/// Minutes of audio: more ticks than a float or a 24-bit counter can tell apart, parameters changed all along.
fn marathon(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = s.usize_in(1, 2000);
    let arenas = [Arena::new(&vec![0.0; len]), Arena::new(&vec![0.0; len])];
    let mut m = Model { c: Comb::new(arenas[0].view_mut()), buf: 0, off: 0, len, pos: 0, damp: 0.5, fb: 0.5, s: 0.0, s_err: 0.0 };
    let (key, total, every) = (s.below(0), s.usize_in(17_000_000, 20_000_000) as u64, s.pick(&[1u64, 100, 10_000, 5_000_000]));
    let longest = s.pick(&[0u64, 1_000, 100_000]);
    let mut passages = Passages::new(key, longest);
    cx.note(|| format!("length {len}, {total} ticks, automation every {every} ticks, passages up to {longest}"));
    for t in 0..total {
        let r = mix(key ^ t);
        if t % every == every - 1 {
            let v = (r >> 40) as f32 / (1u64 << 24) as f32;
            match r & 15 {
                0..=6 => {
                    m.c.set_dampening(v);
                    m.damp = v as f64;
                }
                7..=13 => {
                    let v = 1.9 * v - 0.95;
                    m.c.set_feedback(v);
                    m.fb = v as f64;
                }
                _ => {
                    m.buf = 1 - m.buf;
                    m.c.change_buffer(arenas[m.buf].view_mut());
                }
            }
        }
        let x = if longest > 0 { passages.next() } else { ((r >> 8) as u16 as f32 / 32768.0) - 1.0 };
        tick(&mut m, &arenas, x).map_err(|f| f.at(t))?;
    }
    ensure!(arenas.iter().all(|a| a.guards_intact()), "memory outside the buffer was modified");
    cx.nontrivial();
    Ok(())
}

/// |feedback| < 1, dampening in [0,1]: the output is bounded by max(initial, peak/(1-|feedback|)).
fn bounded(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = length(s, 1);
    let peak = if s.chance(1, 4) { s.f32_log(1e-6, 1e4) } else { s.f32_in(0.0, 1.0) };
    let init = if s.chance(1, 2) { 0.0 } else { s.f32_in(0.0, 2.0) };
    let c = s.vec(len, |s| init * s.sample());
    let a = Arena::new(&c);
    let mut comb = Comb::new(a.view_mut());
    let fb = s.f32_in(-0.99, 0.99);
    let d = s.f32_in(0.0, 1.0);
    comb.set_feedback(fb);
    comb.set_dampening(d);
    let init = c.iter().fold(0.0f32, |m, v| m.max(v.abs())) as f64;
    let bound = init.max(peak as f64 / (1.0 - fb.abs() as f64));
    let key = s.below(0);
    let mode = s.below(3);
    let mut last = 0.0f32;
    for t in 0..12 * len + 50 {
        let x = match mode {
            0 => peak,                                   // constant: worst case for positive feedback
            1 => if (t / len) % 2 == 0 { peak } else { -peak }, // alternating turns: negative feedback
            _ => peak * (((mix(key ^ t as u64) >> 40) as f32 / (1u64 << 23) as f32) - 1.0),
        };
        last = comb.tick(x);
        ensure!((last.abs() as f64) <= bound * (1.0 + 1e-4) + 1e-30, "output {last} exceeds {bound} (feedback {fb}, dampening {d}, peak {peak}, initial {init})");
    }
    cx.note(|| format!("length {len}, peak {peak}, initial {init}, feedback {fb}, dampening {d}, last output {last}"));
    cx.nontrivial_if(bound > 0.0 && fb != 0.0);
    Ok(())
}

fn main() {
    pbt::main(
        "C07",
        &[
            rand("history", 250_000, 10_000_000, history),
            rand("long", 2_000, 100_000, long),
            rand("marathon", 8, 200, marathon),
            rand("bounded", 100_000, 4_000_000, bounded),
        ],
    );
}
