//! C06: a delay line is a circular buffer with exact delay.
use embedded_audio_tools::DelayLine;
use pbt::signal::*;
use pbt::*;

struct Head {
    d: DelayLine,
    buf: usize,
    off: usize,
    len: usize,
    pos: usize,
}

fn history(s: &mut Src, cx: &mut Ctx) -> Res {
    let n_ar = s.usize_in(1, 3);
    let mut arenas = vec![];
    let mut model: Vec<Vec<u32>> = vec![];
    for _ in 0..n_ar {
        let len = length(s, 1);
        let c = s.vec(len, |s| s.f32_any());
        model.push(c.iter().map(|x| x.to_bits()).collect());
        arenas.push(Arena::new(&c));
    }
    let region = |s: &mut Src, model: &Vec<Vec<u32>>| {
        let b = s.below(n_ar as u64) as usize;
        if s.chance(1, 3) {
            let off = s.usize_in(0, model[b].len() - 1);
            (b, off, s.usize_in(1, model[b].len() - off))
        } else {
            (b, 0, model[b].len())
        }
    };
    let mut heads: Vec<Head> = vec![];
    let (b, off, len) = region(s, &model);
    heads.push(Head { d: DelayLine::new(arenas[b].part_mut(off, len)), buf: b, off, len, pos: 0 });
    cx.note(|| format!("buffers {:?}, line on {b}[{off}..][..{len}]", model.iter().map(|m| m.len()).collect::<Vec<_>>()));
    let (mut wraps, mut shrinks) = (0, 0);
    let steps = s.usize_in(1, 60);
    for _ in 0..steps {
        let h = s.below(heads.len() as u64) as usize;
        match s.weighted(&[10, 4, 2, 2, 1, 1]) {
            0 => {
                let v = s.f32_any();
                let hd = &mut heads[h];
                cx.note(|| format!("line{h}.write({v:?})"));
                hd.d.write_and_advance(v);
                model[hd.buf][hd.off + hd.pos] = v.to_bits();
                hd.pos = (hd.pos + 1) % hd.len;
                wraps += (hd.pos == 0) as u32;
            }
            1 => {
                let n = s.usize_in(1, 9);
                let hd = &mut heads[h];
                cx.note(|| format!("line{h}.advance() x{n}"));
                for _ in 0..n {
                    hd.d.advance();
                    hd.pos = (hd.pos + 1) % hd.len;
                    wraps += (hd.pos == 0) as u32;
                }
            }
            2 => {
                let (b, off, len) = region(s, &model);
                let hd = &mut heads[h];
                cx.note(|| format!("line{h}.change_buffer({b}[{off}..][..{len}])"));
                hd.d.change_buffer(arenas[b].part_mut(off, len));
                if hd.pos >= len {
                    hd.pos = 0;
                    shrinks += 1;
                    cx.label("attached a buffer shorter than the position");
                }
                (hd.buf, hd.off, hd.len) = (b, off, len);
                cx.label("attached another buffer");
            }
            3 => {
                let hd = &mut heads[h];
                let p = hd.d.get_ptr_slice_mut();
                ensure!(p.len() == hd.len, "raw slice has length {} instead of {}", p.len(), hd.len);
                ensure!(p as *mut f32 == unsafe { arenas[hd.buf].ptr().add(hd.off) }, "raw slice starts elsewhere");
            }
            4 => {
                if heads.len() < 3 {
                    let hd = &heads[h];
                    let c = Head { d: hd.d, buf: hd.buf, off: hd.off, len: hd.len, pos: hd.pos };
                    heads.push(c);
                    cx.note(|| format!("line{} = copy of line{h}", heads.len() - 1));
                    cx.label("copied line");
                }
            }
            _ => {
                // someone else writes into the buffer
                let b = s.below(n_ar as u64) as usize;
                let i = s.usize_in(0, model[b].len() - 1);
                let v = s.f32_any();
                arenas[b].set(i, v);
                model[b][i] = v.to_bits();
            }
        }
        for (k, hd) in heads.iter().enumerate() {
            ensure!(hd.d.len() == hd.len, "line{k} has length {} instead of {}", hd.d.len(), hd.len);
            let (got, want) = (hd.d.read().to_bits(), model[hd.buf][hd.off + hd.pos]);
            ensure!(got == want, "line{k} (length {}, position {}) reads {got:08x}, want {want:08x}", hd.len, hd.pos);
            let back = hd.d.read_wrapped_at(-1).to_bits();
            ensure!(back == model[hd.buf][hd.off + (hd.pos + hd.len - 1) % hd.len], "line{k}: the element before the position is wrong");
        }
        for (k, a) in arenas.iter().enumerate() {
            ensure!(a.guards_intact(), "memory outside buffer {k} was modified");
            ensure!(a.content() == model[k], "buffer {k} does not hold what was written");
        }
    }
    cx.label_if(wraps > 0, "wrapped");
    cx.nontrivial_if(wraps > 0 || shrinks > 0);
    Ok(())
}

/// Long runs on long lines: every value comes back exactly N writes later.
fn long(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = match s.weighted(&[3, 2]) {
        0 => s.pick(&[1usize, 2, 3, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4096, 4097, 65535, 65536, 65537]),
        _ => every_length(s.below(EVERY_LENGTH)),
    };
    let init: Vec<f32> = (0..len).map(|i| -(i as f32) - 0.5).collect();
    let a = Arena::new(&init);
    let mut d = DelayLine::new(a.view_mut());
    let key = s.below(0) | 1;
    let (longest, extra) = (s.pick(&[0u64, 30, 2_000]), if s.chance(1, 8) { 10_000 } else { 0 });
    let total = 2 * len + s.usize_in(1, len.min(500)) + extra;
    let mut passages = Passages::new(key, longest);
    let mut ring: Vec<u32> = init.iter().map(|v| v.to_bits()).collect();
    cx.note(|| format!("length {len}, {total} samples, passages up to {longest}"));
    for k in 0..total {
        let v = if longest > 0 { passages.next().to_bits() } else { mix(key ^ k as u64) as u32 & 0xBFFF_FFFF };
        let r = d.read().to_bits();
        ensure!(r == ring[k % len], "step {k} on length {len}: read {r:08x}, want {:08x}", ring[k % len]);
        if k % 11 == 10 || longest > 0 && passages.mood() % 4 == 0 {
            d.advance();
        } else {
            d.write_and_advance(f32::from_bits(v));
            ring[k % len] = v;
        }
    }
    ensure!(a.guards_intact(), "memory outside the buffer was modified");
    ensure!(a.content() == ring, "final content is wrong");
    cx.nontrivial();
    Ok(())
}

/// Minutes of audio: more steps than a float or a 24-bit counter can tell apart, sometimes with the buffer exchanged often.
fn marathon(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = s.usize_in(1, 3000);
    let two = [Arena::new(&vec![0.0; len]), Arena::new(&vec![1.0; len])];
    let mut d = DelayLine::new(two[0].view_mut());
    let mut ring = [vec![0u32; len], vec![1.0f32.to_bits(); len]];
    let (key, total, swap) = (s.below(0) | 1, s.usize_in(17_000_000, 20_000_000), s.pick(&[0u64, 0, 7, 1000]));
    let longest = s.pick(&[0u64, 1_000, 100_000]);
    let mut passages = Passages::new(key, longest);
    cx.note(|| format!("length {len}, {total} steps, buffers exchanged about every {swap} steps, passages up to {longest}"));
    let (mut b, mut pos) = (0, 0);
    for k in 0..total {
        let r = mix(key ^ k as u64);
        if swap > 0 && r % swap == 0 {
            b = 1 - b;
            d.change_buffer(two[b].view_mut());
        }
        let got = d.read().to_bits();
        ensure!(got == ring[b][pos], "step {k} on length {len}: read {got:08x}, want {:08x}", ring[b][pos]);
        let x = if longest > 0 { passages.next().to_bits() } else { (r >> 8) as u32 & 0xBFFF_FFFF };
        if r >> 60 == 0 || longest > 0 && passages.mood() % 4 == 0 {
            d.advance();
        } else {
            let v = x;
            d.write_and_advance(f32::from_bits(v));
            ring[b][pos] = v;
        }
        pos = if pos + 1 == len { 0 } else { pos + 1 };
    }
    for (a, r) in two.iter().zip(&ring) {
        ensure!(a.guards_intact(), "memory outside the buffer was modified");
        ensure!(a.content() == *r, "final content is wrong");
    }
    cx.nontrivial();
    Ok(())
}

/// Long lines attached to other long buffers at any position.
fn attach_long(s: &mut Src, cx: &mut Ctx) -> Res {
    let any = |s: &mut Src| match s.weighted(&[4, 3, 1]) {
        0 => every_length(s.below(EVERY_LENGTH)),
        1 => s.usize_in(1, 9000),
        _ => s.usize_in(1, 200_000),
    };
    let (old, new) = (any(s), any(s));
    let pos = match s.weighted(&[3, 1, 1, 1]) {
        0 => s.usize_in(0, old - 1),
        1 => old - 1,
        2 => new.min(old - 1),
        _ => (new - 1).min(old - 1),
    };
    cx.note(|| format!("line of {old} at {pos} attached to {new}"));
    let a = Arena::new(&vec![-1.0; old]);
    let mut b = Arena::new(&(0..new).map(|k| k as f32).collect::<Vec<_>>());
    let mut d = DelayLine::new(a.view_mut());
    for _ in 0..pos {
        d.advance();
    }
    d.change_buffer(b.view_mut());
    let at = if pos < new { pos } else { 0 };
    ensure!(d.len() == new, "the line attached to {new} samples has length {}", d.len());
    for k in 0..(new - at + 3).min(300) {
        let want = ((at + k) % new) as f32;
        ensure!(d.read() == want, "line of {old} at {pos} attached to {new} reads element {} instead of {want} after {k} steps", d.read());
        d.write_and_advance(want + 0.5);
        ensure!(b.at((at + k) % new) == want + 0.5, "line of {old} at {pos} attached to {new} does not write element {want}");
        b.set((at + k) % new, want);
    }
    ensure!(a.guards_intact() && b.guards_intact(), "memory outside the buffers was modified");
    ensure!((0..old).all(|k| a.at(k) == -1.0), "the buffer left behind was modified");
    ensure!((0..new).all(|k| b.at(k) == k as f32), "other elements of the new buffer were modified");
    cx.nontrivial_if(pos > 0);
    Ok(())
}

/// Every (old length, position, new length): re-attachment.
fn attach(i: u64) -> Result<bool, Fail> {
    let (old, pos, new) = ((i % 24) as usize + 1, (i / 24 % 48) as usize, (i / 24 / 48) as usize + 1);
    let a = Arena::new(&(0..old).map(|k| k as f32).collect::<Vec<_>>());
    let mut b = Arena::new(&(0..new).map(|k| 1000.0 + k as f32).collect::<Vec<_>>());
    let mut d = DelayLine::new(a.view_mut());
    for _ in 0..pos {
        d.advance();
    }
    d.change_buffer(b.view_mut());
    let at = if pos % old < new { pos % old } else { 0 };
    for k in 0..2 * new {
        let want = 1000.0 + ((at + k) % new) as f32;
        ensure!(d.read() == want, "line of {old} at {} re-attached to {new} reads {} instead of {want} after {k} steps", pos % old, d.read());
        d.advance();
    }
    d.write_and_advance(5.0);
    ensure!(a.guards_intact() && b.guards_intact(), "memory outside the buffers was modified");
    ensure!(b.at(at) == 5.0, "written to the wrong element");
    Ok(pos % old >= new)
}

fn main() {
    pbt::main(
        "C06",
        &[
            rand("history", 1_000_000, 40_000_000, history),
            rand("long", 20_000, 100_000, long),
            rand("attach-long", 20_000, 500_000, attach_long),
            rand("marathon", 8, 400, marathon),
            sweep("attach", 24 * 48 * 24, 24 * 48 * 24, attach),
        ],
    );
}
