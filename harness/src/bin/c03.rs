//! C03: wrapped integer access is circular for every index.
use embedded_audio_tools::DelayLine;
use pbt::signal::*;
use pbt::*;

fn modulo(i: i128, n: usize) -> usize {
    i.rem_euclid(n as i128) as usize
}

/// Values identify their position.
fn numbered(total: usize) -> Vec<f32> {
    (0..total).map(|k| (k + 1) as f32).collect()
}

fn random(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = length(s, 1);
    let (before, behind) = (s.usize_in(0, 4), s.usize_in(0, 4));
    let a = Arena::new(&numbered(before + len + behind));
    let want = |i: i128| (before + modulo(i, len) + 1) as f32;
    let (m, n) = (a.part_mut(before, len), a.part(before, len));
    for _ in 0..s.usize_in(1, 6) {
        let i = any_isize(s, len);
        cx.note(|| format!("len {len}, index {i}"));
        let w = want(i as i128);
        ensure!(m.get_wrapped(i) == w, "get_wrapped({i}) on length {len} returned element {} instead of {}", m.get_wrapped(i) - before as f32 - 1.0, modulo(i as i128, len));
        ensure!(n.get_wrapped(i) == w, "get_wrapped({i}) (read-only) on length {len} is not circular");
        ensure!(unsafe { n.get_wrapped_unchecked(i) } == w, "get_wrapped_unchecked({i}) on length {len} is not circular");
        let w4 = [0, 1, 2, 3].map(|k| want(i as i128 + k));
        let g4 = m.get_slice_of_four_wrapped(i);
        ensure!(g4 == w4, "four elements from {i} on length {len}: {:?}, want {:?}", g4, w4);
        ensure!(n.get_slice_of_four_wrapped(i) == w4, "four elements (read-only) from {i} on length {len} are wrong");
        cx.nontrivial_if(i < 0 || i as i128 + 3 >= len as i128);
        cx.label_if(i < 0, "negative index");
        cx.label_if(i as i128 >= len as i128, "index beyond the end");
        cx.label_if((i as i128 + 3 > isize::MAX as i128) || i < isize::MIN + 400, "extreme index");
        cx.label_if(i >= 0 && (i as i128) < len as i128 && i as i128 + 3 >= len as i128, "window across the seam");
    }
    // delay line
    let mut d = DelayLine::new(m);
    let pos = s.usize_in(0, 2 * len);
    for _ in 0..pos {
        d.advance();
    }
    for _ in 0..s.usize_in(1, 4) {
        let o = any_isize(s, len);
        cx.note(|| format!("delay line of {len} at {pos}, offset {o}"));
        let w = want(pos as i128 + o as i128);
        ensure!(d.read_wrapped_at(o) == w, "delay line of length {len} at position {}: offset {o} read element {} instead of {}", pos % len, d.read_wrapped_at(o) - before as f32 - 1.0, w - before as f32 - 1.0);
        ensure!(d.read_wrapped_at(0) == d.read(), "offset 0 is not the current element");
        cx.label("delay line");
    }
    Ok(())
}

/// Every length 1..=48 with every index -150..=150.
fn small(i: u64) -> Result<bool, Fail> {
    let len = (i % 48) as usize + 1;
    let idx = (i / 48) as i64 as isize - 150;
    let a = Arena::new(&numbered(len));
    let w4 = [0, 1, 2, 3].map(|k| (modulo(idx as i128 + k, len) + 1) as f32);
    let v = a.view();
    ensure!(v.get_wrapped(idx) == w4[0], "get_wrapped({idx}) on length {len}");
    ensure!(v.get_slice_of_four_wrapped(idx) == w4, "four elements from {idx} on length {len}: {:?} want {:?}", v.get_slice_of_four_wrapped(idx), w4);
    let mut d = DelayLine::new(a.view_mut());
    let pos = (i % 7) as usize;
    for _ in 0..pos {
        d.advance();
    }
    let w = (modulo(pos as i128 + idx as i128, len) + 1) as f32;
    ensure!(d.read_wrapped_at(idx) == w, "delay line of {len} advanced {pos} times, offset {idx}");
    Ok(true)
}

/// Large buffers (power-of-two and not), where index arithmetic in a narrower type would show.
fn large(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = if s.chance(1, 60) { s.usize_in(300_000, 1_300_000) } else { s.pick(&[255usize, 256, 257, 1000, 4096, 5075, 65535, 65536, 65537, 70001]) };
    let a = Arena::new(&numbered(len));
    let v = a.view();
    let mut d = DelayLine::new(a.view_mut());
    let pos = if s.chance(1, 4) { s.usize_in(0, len + 3) } else { s.usize_in(0, 300) };
    for _ in 0..pos {
        d.advance();
    }
    for _ in 0..40 {
        let i = any_isize(s, len);
        let w4 = [0, 1, 2, 3].map(|k| (modulo(i as i128 + k, len) + 1) as f32);
        ensure!(v.get_wrapped(i) == w4[0], "get_wrapped({i}) on length {len} returned {} instead of {}", v.get_wrapped(i), w4[0]);
        ensure!(v.get_slice_of_four_wrapped(i) == w4, "four elements from {i} on length {len}");
        let w = (modulo(pos as i128 + i as i128, len) + 1) as f32;
        ensure!(d.read_wrapped_at(i) == w, "delay line of {len} at {pos}, offset {i}: {} instead of {w}", d.read_wrapped_at(i));
    }
    cx.note(|| format!("len {len}, position {pos}, 40 indices"));
    cx.nontrivial();
    Ok(())
}

/// Every index from one turn before to one turn behind buffers of every length (to 2100 and the common ones above).
fn lengths(i: u64) -> Result<bool, Fail> {
    let len = every_length(i);
    let a = Arena::new(&numbered(len));
    let v = a.view();
    let mut d = DelayLine::new(a.view_mut());
    let pos = (mix(i) % len as u64) as usize;
    for _ in 0..pos {
        d.advance();
    }
    let want = |i: isize| (i.rem_euclid(len as isize) + 1) as f32;
    let l = len as isize;
    for k in -l - 4..2 * l + 4 {
        ensure!(v.get_wrapped(k) == want(k), "get_wrapped({k}) on length {len} returned element {} instead of {}", v.get_wrapped(k) - 1.0, want(k) - 1.0);
        let four = [want(k), want(k + 1), want(k + 2), want(k + 3)];
        ensure!(v.get_slice_of_four_wrapped(k) == four, "four elements from {k} on length {len}: {:?}, want {four:?}", v.get_slice_of_four_wrapped(k));
        let w = want(pos as isize + k);
        ensure!(d.read_wrapped_at(k) == w, "delay line of {len} at {pos}, offset {k}: {} instead of {w}", d.read_wrapped_at(k));
    }
    Ok(true)
}

fn main() {
    pbt::main(
        "C03",
        &[
            rand("random", 3_000_000, 100_000_000, random),
            rand("large", 30_000, 1_000_000, large),
            sweep("lengths", EVERY_LENGTH, EVERY_LENGTH, lengths),
            sweep("small", 48 * 301, 48 * 301, small),
        ],
    );
}
