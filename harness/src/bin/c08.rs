//! C08: the Schroeder all-pass implements its difference equation.
use embedded_audio_tools::AllPass;
use pbt::num::U;
use pbt::signal::*;
use pbt::*;

struct Model {
    c: AllPass,
    buf: usize,
    off: usize,
    len: usize,
    pos: usize,
}

fn tick(m: &mut Model, arenas: &[Arena], x: f32) -> Result<f32, Fail> {
    let a = &arenas[m.buf];
    let at = m.off + m.pos;
    let d = a.at(at) as f64;
    let out = m.c.tick(x) as f64;
    let x = x as f64;
    let tol = 2.0 * U * (x.abs() + d.abs()) + 1e-44;
    ensure!((out - (d - x)).abs() <= tol, "tick({x}) returned {out}, the sample stored {} ticks ago is {d}", m.len);
    let got = a.at(at) as f64;
    ensure!((got - (x + 0.5 * d)).abs() <= tol, "stored {got}, want {} (input {x}, delayed {d})", x + 0.5 * d);
    m.pos = (m.pos + 1) % m.len;
    Ok(out as f32)
}

fn history(s: &mut Src, cx: &mut Ctx) -> Res {
    let n_ar = s.usize_in(1, 3);
    let mut arenas = vec![];
    for _ in 0..n_ar {
        let len = length(s, 1);
        let c = if s.chance(1, 2) { vec![0.0; len] } else { s.vec(len, |s| s.sample()) };
        arenas.push(Arena::new(&c));
    }
    let region = |s: &mut Src, arenas: &[Arena]| {
        let b = s.below(n_ar as u64) as usize;
        let n = arenas[b].len();
        if s.chance(1, 4) {
            let off = s.usize_in(0, n - 1);
            (b, off, s.usize_in(1, n - off))
        } else {
            (b, 0, n)
        }
    };
    let (b, off, len) = region(s, &arenas);
    let mut ms = vec![Model { c: AllPass::new(arenas[b].part_mut(off, len)), buf: b, off, len, pos: 0 }];
    cx.note(|| format!("buffers {:?}, all-pass on {b}[{off}..][..{len}]", arenas.iter().map(|a| a.len()).collect::<Vec<_>>()));
    let (mut wrapped, mut changes) = (false, 0);
    for _ in 0..s.usize_in(1, 40) {
        let k = s.below(ms.len() as u64) as usize;
        match s.weighted(&[8, 2, 1]) {
            0 => {
                let n = s.usize_in(1, 12);
                for _ in 0..n {
                    let scale = if s.chance(1, 10) { 1000.0 } else { 1.0 };
                    let x = s.loud() * scale;
                    cx.note(|| format!("ap{k}.tick({x:?})"));
                    let m = &mut ms[k];
                    let before: Vec<Vec<u32>> = arenas.iter().map(|a| a.content()).collect();
                    let at = (m.buf, m.off + m.pos);
                    tick(m, &arenas, x)?;
                    wrapped |= m.pos == 0;
                    for (i, a) in arenas.iter().enumerate() {
                        ensure!(a.guards_intact(), "memory outside buffer {i} was modified");
                        let now = a.content();
                        for j in 0..now.len() {
                            ensure!(now[j] == before[i][j] || (i, j) == at, "tick at element {} also changed element {j} of buffer {i}", at.1);
                        }
                    }
                }
            }
            1 => {
                let (b, off, len) = region(s, &arenas);
                cx.note(|| format!("ap{k}.change_buffer({b}[{off}..][..{len}])"));
                let m = &mut ms[k];
                let before: Vec<Vec<u32>> = arenas.iter().map(|a| a.content()).collect();
                m.c.change_buffer(arenas[b].part_mut(off, len));
                if m.pos >= len {
                    m.pos = 0;
                    cx.label("attached a buffer shorter than the position");
                }
                (m.buf, m.off, m.len) = (b, off, len);
                ensure!(before == arenas.iter().map(|a| a.content()).collect::<Vec<_>>(), "attaching a buffer changed memory");
                changes += 1;
                cx.label("attached another buffer");
            }
            _ => {
                if ms.len() < 3 {
                    let m = &ms[k];
                    let c = Model { c: m.c, ..*m };
                    ms.push(c);
                    cx.note(|| format!("ap{} = copy of ap{k}", ms.len() - 1));
                }
                let m = &mut ms[k];
                let p = m.c.get_ptr_slice_mut();
                ensure!(p.len() == m.len && p as *mut f32 == unsafe { arenas[m.buf].ptr().add(m.off) }, "raw slice is not the attached buffer");
            }
        }
    }
    cx.nontrivial_if(wrapped || changes > 0);
    Ok(())
}

/// Realistic lengths and long runs, and the impulse response -1, then 0.75*0.5^(k-1) every N samples... all by the equation.
fn long(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = match s.weighted(&[2, 3]) {
        0 => s.pick(&[1usize, 2, 225, 255, 256, 257, 341, 441, 556, 4096]),
        _ => every_length(s.below(EVERY_LENGTH)),
    };
    let (len, turns) = if s.chance(1, 30) { (big_length(s), 2) } else { (len, 5) };
    let arenas = [Arena::new(&vec![0.0; len])];
    let mut m = Model { c: AllPass::new(arenas[0].view_mut()), buf: 0, off: 0, len, pos: 0 };
    let key = s.below(0);
    let scale = s.f32_log(1e-3, 1e3);
    let (longest, extra) = (s.pick(&[0u64, 30, 2_000, 20_000]), if s.chance(1, 4) { 20_000 } else { 10 });
    let mut passages = Passages::new(key, longest);
    cx.note(|| format!("length {len}, {turns} turns and {extra} ticks, scale {scale}, passages up to {longest}"));
    for t in 0..turns * len + extra {
        let x = scale * if longest > 0 { passages.next() } else { ((mix(key ^ t as u64) >> 40) as f32 / (1u64 << 23) as f32) - 1.0 };
        tick(&mut m, &arenas, x)?;
    }
    ensure!(arenas[0].guards_intact(), "memory outside the buffer was modified");
    cx.nontrivial();
    Ok(())
}

/// Impulse response in closed form: -1 at 0, then delayed echoes 1, 1/2, 1/4, ... every N samples.
fn impulse(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = length(s, 1);
    let a = Arena::new(&vec![0.0; len]);
    let mut ap = AllPass::new(a.view_mut());
    let h = s.f32_in(0.1, 4.0);
    for t in 0..10 * len + 3 {
        let got = ap.tick(if t == 0 { h } else { 0.0 }) as f64;
        let want = if t == 0 { -1.0 } else if t % len == 0 { 0.5f64.powi((t / len) as i32 - 1) } else { 0.0 } * h as f64;
        ensure!((got - want).abs() <= 1e-6 * h as f64, "impulse {h} into length {len}: output {got} at {t}, want {want}");
    }
    cx.note(|| format!("length {len}, impulse {h}"));
    cx.nontrivial();
    Ok(())
}

/// Minutes of audio: more ticks than a float or a 24-bit counter can tell apart, sometimes with the buffer exchanged often.
fn marathon(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = s.usize_in(1, 2000);
    let arenas = [Arena::new(&vec![0.0; len]), Arena::new(&vec![0.0; len])];
    let mut m = Model { c: AllPass::new(arenas[0].view_mut()), buf: 0, off: 0, len, pos: 0 };
    let (key, total, swap) = (s.below(0), s.usize_in(17_000_000, 20_000_000) as u64, s.pick(&[0u64, 0, 7, 1000]));
    let longest = s.pick(&[0u64, 1_000, 100_000]);
    let mut passages = Passages::new(key, longest);
    cx.note(|| format!("length {len}, {total} ticks, buffers exchanged about every {swap} ticks, passages up to {longest}"));
    for t in 0..total {
        let r = mix(key ^ t);
        if swap > 0 && r % swap == 0 {
            m.buf = 1 - m.buf;
            m.c.change_buffer(arenas[m.buf].view_mut());
        }
        let x = if longest > 0 { passages.next() } else { ((r >> 8) as u16 as f32 / 32768.0) - 1.0 };
        tick(&mut m, &arenas, x).map_err(|f| f.at(t))?;
    }
    ensure!(arenas.iter().all(|a| a.guards_intact()), "memory outside the buffer was modified");
    cx.nontrivial();
    Ok(())
}

fn main() {
    pbt::main(
        "C08",
        &[
            rand("history", 300_000, 12_000_000, history),
            rand("long", 3_000, 120_000, long),
            rand("marathon", 8, 200, marathon),
            rand("impulse", 20_000, 400_000, impulse),
        ],
    );
}
