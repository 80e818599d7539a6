//! C01: safe operations never touch memory outside the buffer they were given.
//!
//! Every buffer lies between NaN-poisoned elements.  Only finite samples are ever put in, so a NaN
//! coming out means that foreign memory was read; a changed element outside the attached region
//! means that foreign memory was written.  The same cases run under AddressSanitizer, where the
//! buffer ends exactly at the end of its heap block.
use embedded_audio_tools::float::AdditionalF32Ext;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::{AllPass, Comb, DelayLine, PhaseAccumulator, SoftPhaseAccumulator, WavetableOscillator};
use pbt::signal::*;
use pbt::*;
use std::cell::RefCell;
use std::rc::Rc;

enum Obj {
    View(MemorySlice<Mutable>),
    Read(MemorySlice<NonMutable>),
    Line(DelayLine),
    Comb(Comb),
    Pass(AllPass),
    Soft(WavetableOscillator<SoftPhaseAccumulator>),
    Script(WavetableOscillator<ScriptPA>, #[allow(dead_code)] Rc<RefCell<PaLog>>),
}

/// Where an object's buffer lies: arena, first element, length.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Region {
    a: usize,
    off: usize,
    len: usize,
}

struct Pool {
    arenas: Vec<Arena>,
    /// the samples of each arena; poison around them
    inner: Vec<(usize, usize)>,
}

impl Pool {
    fn new(s: &mut Src) -> Pool {
        let (mut arenas, mut inner) = (vec![], vec![]);
        for _ in 0..s.usize_in(1, 4) {
            let len = length(s, 1);
            let (k, m) = (s.usize_in(0, 3), s.usize_in(0, 3));
            let mut c = vec![f32::from_bits(POISON); k];
            c.extend((0..len).map(|_| s.sample()));
            c.extend(vec![f32::from_bits(POISON); m]);
            arenas.push(Arena::new(&c));
            inner.push((k, len));
        }
        Pool { arenas, inner }
    }
    fn region(&self, s: &mut Src) -> Region {
        let a = s.below(self.arenas.len() as u64) as usize;
        let (k, len) = self.inner[a];
        Region { a, off: k, len }
    }
    fn mutable(&self, r: Region) -> MemorySlice<Mutable> {
        self.arenas[r.a].part_mut(r.off, r.len)
    }
    fn constant(&self, r: Region) -> MemorySlice<NonMutable> {
        self.arenas[r.a].part(r.off, r.len)
    }
    fn snapshot(&self) -> Vec<Vec<u32>> {
        self.arenas.iter().map(|a| a.content()).collect()
    }
    /// Nothing outside `r` differs from `old`.
    fn untouched_outside(&self, old: &[Vec<u32>], r: Option<Region>, op: &str) -> Res {
        for (k, a) in self.arenas.iter().enumerate() {
            ensure!(a.guards_intact(), "{op} wrote outside buffer {k}");
            let new = a.content();
            if new == old[k] {
                continue;
            }
            for i in 0..new.len() {
                let inside = r.is_some_and(|r| r.a == k && i >= r.off && i < r.off + r.len);
                ensure!(inside || new[i] == old[k][i], "{op} on {r:?} changed element {i} of buffer {k}");
            }
        }
        Ok(())
    }
}

/// A position for wrapped interpolation: seams, fractions, far away, extreme.
fn any_pos(s: &mut Src, len: usize) -> f32 {
    let l = len as f32;
    match s.weighted(&[4, 4, 3, 3, 2, 2]) {
        0 => s.f32_in(0.0, l),
        1 => s.i64_in(-2 * len as i64 - 2, 2 * len as i64 + 2) as f32,
        2 => s.f32_in(-3.0 * l - 3.0, 3.0 * l + 3.0),
        3 => {
            // a hair below or above an integer
            let b = (s.i64_in(-(len as i64), 2 * len as i64) as f32).to_bits();
            f32::from_bits(if s.chance(1, 2) { b.wrapping_sub(1 + s.below(3) as u32) } else { b.wrapping_add(1 + s.below(3) as u32) })
        }
        4 => s.f32_in(-1e6, 1e6),
        _ => s.f32_any(),
    }
}

fn view_op<M>(s: &mut Src, cx: &mut Ctx, v: &MemorySlice<M>) -> Res
where
    M: embedded_audio_tools_traits::Read<M>,
{
    let len = v.len();
    match s.below(8) {
        0 => {
            let i = any_index(s, len);
            cx.note(|| format!("  get({i}) of {len}"));
            let r = M::get(v, i);
            ensure!(r.is_some() == (i < len), "get({i}) on a view of length {len}: {r:?}");
            ensure!(!r.is_some_and(|x| x.is_nan()), "get({i}) on a view of length {len} returned foreign memory");
            cx.label_if(i >= len, "index out of range");
        }
        1 => {
            let i = any_isize(s, len);
            cx.note(|| format!("  get_wrapped({i}) of {len}"));
            ensure!(!M::wrapped(v, i).is_nan(), "get_wrapped({i}) on a view of length {len} returned foreign memory");
        }
        2 => {
            let i = any_isize(s, len);
            cx.note(|| format!("  get_slice_of_four_wrapped({i}) of {len}"));
            let r = M::four(v, i);
            ensure!(!r.iter().any(|x| x.is_nan()), "four-element window at {i} of length {len} contains foreign memory: {r:?}");
        }
        3 => {
            let p = any_pos(s, len);
            cx.note(|| format!("  lerp({p:?}) of {len}"));
            let r = M::lerp(v, p);
            ensure!(!r.is_some_and(|x| x.is_nan()), "lerp({p:?}) on a view of length {len} returned foreign memory");
            cx.label_if(r.is_none(), "position rejected");
        }
        4 => {
            let p = any_pos(s, len);
            cx.note(|| format!("  lerp_wrapped({p:?}) of {len}"));
            let r = M::lerp_wrapped(v, p);
            // beyond 1e7 the blend factor itself is meaningless: only the access must stay inside
            ensure!(!r.is_nan() || p.is_nan() || p.abs() > 1e7, "lerp_wrapped({p:?}) on a view of length {len} returned foreign memory");
        }
        5 => {
            let p = any_pos(s, len);
            let p = if p.is_nan() || p.abs() > 1e6 { 0.25 } else { p };
            let n = match s.weighted(&[4, 2, 1]) {
                0 => s.usize_in(0, 8),
                1 => s.usize_in(0, 24),
                _ => s.usize_in(0, 130),
            };
            cx.note(|| format!("  lagrange_wrapped({p:?}, {n}) of {len}"));
            let r = M::lagrange(v, p, n);
            ensure!(!r.is_nan() || n > 24, "lagrange_wrapped({p:?}, {n}) on a view of length {len} returned foreign memory");
        }
        6 => {
            let p = any_pos(s, len);
            cx.note(|| format!("  lagrange_four_points_wrapped({p:?}) of {len}"));
            let r = M::lagrange4(v, p);
            ensure!(!r.is_nan() || p.is_nan() || p.abs() > 1e6, "lagrange_four_points_wrapped({p:?}) on a view of length {len} returned foreign memory");
        }
        _ => {
            let (b, n) = M::raw(v);
            let _ = b;
            ensure!(n == len, "raw slice has length {n} instead of {len}");
        }
    }
    Ok(())
}

/// The read interface of both kinds of view.
mod embedded_audio_tools_traits {
    use super::*;
    pub trait Read<M> {
        fn get(v: &MemorySlice<M>, i: usize) -> Option<f32>;
        fn wrapped(v: &MemorySlice<M>, i: isize) -> f32;
        fn four(v: &MemorySlice<M>, i: isize) -> [f32; 4];
        fn lerp(v: &MemorySlice<M>, p: f32) -> Option<f32>;
        fn lerp_wrapped(v: &MemorySlice<M>, p: f32) -> f32;
        fn lagrange(v: &MemorySlice<M>, p: f32, n: usize) -> f32;
        fn lagrange4(v: &MemorySlice<M>, p: f32) -> f32;
        fn raw(v: &MemorySlice<M>) -> (*const f32, usize);
    }
    macro_rules! imp {
        ($t:ty) => {
            impl Read<$t> for $t {
                fn get(v: &MemorySlice<$t>, i: usize) -> Option<f32> {
                    v.get(i).ok()
                }
                fn wrapped(v: &MemorySlice<$t>, i: isize) -> f32 {
                    v.get_wrapped(i)
                }
                fn four(v: &MemorySlice<$t>, i: isize) -> [f32; 4] {
                    v.get_slice_of_four_wrapped(i)
                }
                fn lerp(v: &MemorySlice<$t>, p: f32) -> Option<f32> {
                    v.lerp(p).ok()
                }
                fn lerp_wrapped(v: &MemorySlice<$t>, p: f32) -> f32 {
                    v.lerp_wrapped(p)
                }
                fn lagrange(v: &MemorySlice<$t>, p: f32, n: usize) -> f32 {
                    v.lagrange_wrapped(p, n)
                }
                fn lagrange4(v: &MemorySlice<$t>, p: f32) -> f32 {
                    v.lagrange_four_points_wrapped(p)
                }
                fn raw(v: &MemorySlice<$t>) -> (*const f32, usize) {
                    let p = v.as_slice();
                    (p as *const f32, p.len())
                }
            }
        };
    }
    imp!(Mutable);
    imp!(NonMutable);
}

fn make(s: &mut Src, cx: &mut Ctx, pool: &Pool) -> (Obj, Region) {
    let r = pool.region(s);
    let k = s.weighted(&[3, 1, 3, 3, 2, 1, 2]);
    cx.note(|| format!("new {} on {r:?}", ["view", "read-only view", "delay line", "comb", "all-pass", "wavetable", "wavetable (scripted phase)"][k]));
    let o = match k {
        0 => Obj::View(pool.mutable(r)),
        1 => Obj::Read(pool.constant(r)),
        2 => Obj::Line(DelayLine::new(pool.mutable(r))),
        3 => Obj::Comb(Comb::new(pool.mutable(r))),
        4 => Obj::Pass(AllPass::new(pool.mutable(r))),
        5 => {
            let sr = s.pick(&[48_000.0f32, 44_100.0, 1000.0]);
            let f = s.f32_in(0.0, sr * 0.999);
            Obj::Soft(WavetableOscillator::new(pool.constant(r), <SoftPhaseAccumulator as PhaseAccumulator>::new(f, sr)), )
        }
        _ => {
            let ph = s.vec(24, phase);
            let (pa, log) = ScriptPA::scripted(ph);
            Obj::Script(WavetableOscillator::new(pool.constant(r), pa), log)
        }
    };
    (o, r)
}

fn history(s: &mut Src, cx: &mut Ctx) -> Res {
    let pool = Pool::new(s);
    cx.note(|| format!("buffers {:?} (offset, length)", pool.inner));
    let mut objs: Vec<(Obj, Region)> = vec![];
    for _ in 0..s.usize_in(1, 3) {
        objs.push(make(s, cx, &pool));
    }
    let (mut ops, mut reattach) = (0, 0);
    for _ in 0..s.usize_in(1, 40) {
        let k = s.below(objs.len() as u64) as usize;
        let before = pool.snapshot();
        let (o, r) = &mut objs[k];
        let mut op = "";
        let mut out = 0.0f32;
        let mut newr = *r;
        let mut fresh: Option<(Obj, Region)> = None;
        match o {
            Obj::View(v) => {
                ops += 1;
                match s.weighted(&[6, 2, 2]) {
                    0 => {
                        op = "a read";
                        view_op(s, cx, v)?
                    }
                    1 => {
                        op = "assign";
                        let (i, x) = (any_index(s, r.len), s.sample());
                        cx.note(|| format!("  assign({i}, {x}) on {r:?}"));
                        let ok = v.assign(i, x).is_ok();
                        ensure!(ok == (i < r.len), "assign({i}) on a view of length {}: ok = {ok}", r.len);
                    }
                    _ => {
                        op = "a sub-view";
                        let (i, n) = (any_index(s, r.len), any_index(s, r.len));
                        let sub = v.get_sub_slice(i, n);
                        cx.note(|| format!("  get_sub_slice({i}, {n}) of {r:?}: {}", sub.is_ok()));
                        if let Ok(v2) = sub {
                            let fits = (i as u128 + n as u128) <= r.len as u128;
                            ensure!(fits && v2.len() == n, "sub-view ({i}, {n}) of a view of length {} was granted with length {}", r.len, v2.len());
                            if n > 0 {
                                fresh = Some((Obj::View(v2), Region { a: r.a, off: r.off + i, len: n }));
                                cx.label("sub-view in use");
                            }
                        }
                    }
                }
            }
            Obj::Read(v) => {
                ops += 1;
                op = "a read";
                view_op(s, cx, v)?
            }
            Obj::Line(d) => match s.weighted(&[5, 2, 2, 2, 2, 1, 2]) {
                0 => {
                    op = "write_and_advance";
                    let x = s.sample();
                    for _ in 0..s.usize_in(1, 6) {
                        cx.note(|| format!("  line.write({x}) on {r:?}"));
                        d.write_and_advance(x);
                        ops += 1;
                    }
                    out = d.read();
                }
                1 => {
                    op = "advance";
                    for _ in 0..s.usize_in(1, 2 * r.len.min(40)) {
                        d.advance();
                    }
                    cx.note(|| format!("  line.advance() on {r:?}"));
                    out = d.read();
                }
                2 => {
                    op = "read_wrapped_at";
                    let i = any_isize(s, r.len);
                    cx.note(|| format!("  line.read_wrapped_at({i}) on {r:?}"));
                    out = d.read_wrapped_at(i);
                }
                3 => {
                    op = "read_lerp_wrapped_at";
                    let p = any_pos(s, r.len);
                    cx.note(|| format!("  line.read_lerp_wrapped_at({p:?}) on {r:?}"));
                    let v = d.read_lerp_wrapped_at(p);
                    out = if p.is_nan() || p.abs() > 1e7 { 0.0 } else { v };
                }
                4 => {
                    op = "read_lagrange_wrapped_at";
                    let p = any_pos(s, r.len);
                    let p = if p.is_nan() || p.abs() > 1e6 { 0.5 } else { p };
                    cx.note(|| format!("  line.read_lagrange_wrapped_at({p:?}) on {r:?}"));
                    out = d.read_lagrange_wrapped_at(p);
                }
                5 => {
                    op = "get_ptr_slice_mut";
                    let p = d.get_ptr_slice_mut();
                    ensure!(p as *mut f32 == unsafe { pool.arenas[r.a].ptr().add(r.off) } && p.len() == r.len, "raw slice of the line is not its buffer");
                }
                _ => {
                    op = "change_buffer";
                    newr = pool.region(s);
                    cx.note(|| format!("  line.change_buffer({newr:?}) from {r:?}"));
                    d.change_buffer(pool.mutable(newr));
                    reattach += (newr.len < r.len) as u32;
                    cx.label_if(newr.len < r.len, "attached a shorter buffer");
                    out = d.read();
                }
            },
            Obj::Comb(c) => match s.weighted(&[6, 1, 1, 2, 1]) {
                0 => {
                    op = "comb tick";
                    for _ in 0..s.usize_in(1, 12) {
                        let x = s.sample();
                        out = c.tick(x);
                        ensure!(!out.is_nan(), "comb on {r:?} returned foreign memory");
                        ops += 1;
                    }
                    cx.note(|| format!("  comb ticks on {r:?}"));
                }
                1 => c.set_dampening(s.f32_in(0.0, 1.0)),
                2 => c.set_feedback(s.f32_in(-1.0, 1.0)),
                3 => {
                    op = "change_buffer";
                    newr = pool.region(s);
                    cx.note(|| format!("  comb.change_buffer({newr:?}) from {r:?}"));
                    c.change_buffer(pool.mutable(newr));
                    reattach += (newr.len < r.len) as u32;
                    cx.label_if(newr.len < r.len, "attached a shorter buffer");
                }
                _ => {
                    let p = c.get_ptr_slice_mut();
                    ensure!(p as *mut f32 == unsafe { pool.arenas[r.a].ptr().add(r.off) } && p.len() == r.len, "raw slice of the comb is not its buffer");
                }
            },
            Obj::Pass(c) => match s.weighted(&[6, 2, 1]) {
                0 => {
                    op = "all-pass tick";
                    for _ in 0..s.usize_in(1, 12) {
                        let x = s.sample();
                        out = c.tick(x);
                        ensure!(!out.is_nan(), "all-pass on {r:?} returned foreign memory");
                        ops += 1;
                    }
                    cx.note(|| format!("  all-pass ticks on {r:?}"));
                }
                1 => {
                    op = "change_buffer";
                    newr = pool.region(s);
                    cx.note(|| format!("  all-pass.change_buffer({newr:?}) from {r:?}"));
                    c.change_buffer(pool.mutable(newr));
                    reattach += (newr.len < r.len) as u32;
                    cx.label_if(newr.len < r.len, "attached a shorter buffer");
                }
                _ => {
                    let p = c.get_ptr_slice_mut();
                    ensure!(p as *mut f32 == unsafe { pool.arenas[r.a].ptr().add(r.off) } && p.len() == r.len, "raw slice of the all-pass is not its buffer");
                }
            },
            Obj::Soft(w) => match s.weighted(&[5, 1, 1]) {
                0 => {
                    op = "wavetable next";
                    for _ in 0..s.usize_in(1, 12) {
                        out = w.next();
                        ensure!(!out.is_nan(), "wavetable on {r:?} returned foreign memory");
                        ops += 1;
                    }
                    cx.note(|| format!("  wavetable ticks on {r:?}"));
                }
                1 => w.set_freq_unchecked(s.f32_in(0.0, 999.0)),
                _ => w.set_phase_shift_unchecked(s.f32_in(0.0, 1.0)),
            },
            Obj::Script(w, _) => {
                op = "wavetable next";
                out = w.next();
                ops += 1;
                cx.note(|| format!("  wavetable tick on {r:?}: {out}"));
            }
        }
        ensure!(!out.is_nan(), "{op} on {r:?} returned foreign memory");
        let region = match o {
            Obj::Read(_) | Obj::Soft(_) | Obj::Script(..) => None,
            _ => Some(*r),
        };
        *r = newr;
        let (reads_only, op) = (op != "assign" && matches!(o, Obj::View(_)), op);
        pool.untouched_outside(&before, if reads_only { None } else { region }, op)?;
        objs.extend(fresh);
    }
    cx.nontrivial_if(ops >= 10 || reattach > 0);
    Ok(())
}

/// Buffers longer than a 16-bit index: views, lines and filters move between them and short ones.
fn large(s: &mut Src, cx: &mut Ctx) -> Res {
    let (na, nb) = (big_length(s), if s.chance(1, 2) { length(s, 1) } else { big_length(s) });
    let (k, m) = (s.usize_in(0, 3), s.usize_in(0, 3));
    let fill = |n: usize| {
        let mut c = vec![f32::from_bits(POISON); k];
        c.extend((0..n).map(|i| (i % 251) as f32 / 251.0));
        c.extend(vec![f32::from_bits(POISON); m]);
        Arena::new(&c)
    };
    let (a, b) = (fill(na), fill(nb));
    let (va, vb) = (a.part_mut(k, na), b.part_mut(k, nb));
    cx.note(|| format!("buffers of {na} and {nb}"));
    for _ in 0..40 {
        view_op(s, cx, &va)?;
    }
    let mut w = va;
    for _ in 0..10 {
        let i = any_index(s, na);
        ensure!(w.assign(i, 0.5).is_ok() == (i < na), "assign({i}) on a view of length {na}");
        let (o, n) = (any_index(s, na), any_index(s, na));
        if let Ok(v) = w.get_sub_slice(o, n) {
            ensure!(o as u128 + n as u128 <= na as u128, "sub-view ({o}, {n}) of a view of length {na} was granted");
            if n > 0 {
                view_op(s, cx, &v)?;
            }
        }
    }
    let mut d = DelayLine::new(va);
    let mut c = Comb::new(va);
    let mut p = AllPass::new(va);
    let mut len = na;
    for _ in 0..s.usize_in(1, 3) {
        for _ in 0..s.usize_in(0, len + 10) {
            d.write_and_advance(0.25);
            c.tick(0.125);
            p.tick(0.125);
        }
        for _ in 0..8 {
            ensure!(!d.read_wrapped_at(any_isize(s, len)).is_nan(), "line of {len} read foreign memory");
            let q = any_pos(s, len);
            if q.abs() <= 1e6 {
                ensure!(!d.read_lerp_wrapped_at(q).is_nan() && !d.read_lagrange_wrapped_at(q).is_nan(), "line of {len} read foreign memory at offset {q:?}");
            }
        }
        let (v, n) = if s.chance(1, 2) { (va, na) } else { (vb, nb) };
        cx.note(|| format!("attached {n} samples instead of {len}"));
        d.change_buffer(v);
        c.change_buffer(v);
        p.change_buffer(v);
        len = n;
        for _ in 0..8 {
            let (x, y, z) = (d.read(), c.tick(0.5), p.tick(0.5));
            ensure!(!x.is_nan() && !y.is_nan() && !z.is_nan(), "after attaching {n} samples: line {x}, comb {y}, all-pass {z}");
            d.write_and_advance(0.5);
        }
    }
    let mut o = WavetableOscillator::new(a.part(k, na), <SoftPhaseAccumulator as PhaseAccumulator>::new(s.f32_in(1.0, 900.0), 1000.0));
    for _ in 0..100 {
        ensure!(!o.next().is_nan(), "wavetable of {na} samples read foreign memory");
    }
    for (x, n) in [(&a, na), (&b, nb)] {
        ensure!(x.guards_intact(), "memory outside a buffer of {n} was modified");
        ensure!((0..k).chain(k + n..k + n + m).all(|i| x.bits(i) == POISON), "memory next to a buffer of {n} was modified");
    }
    cx.nontrivial();
    Ok(())
}

/// 2^24: from here on not every index is an f32.
const EDGE: usize = 1 << 24;

/// Views that end near the 2^24th sample of one big block, where positions begin to round.  The
/// samples near the end carry their index, so that whatever was read tells where it came from.
fn edge(i: u64) -> Result<bool, Fail> {
    static BLOCK: std::sync::OnceLock<Vec<f32>> = std::sync::OnceLock::new();
    let block = BLOCK.get_or_init(|| {
        let mut v = vec![0.0f32; EDGE + 256];
        for k in 0..320 {
            v[EDGE - 64 + k] = k as f32;
        }
        v
    });
    let len = EDGE - 32 + (i % 160) as usize;
    let last = (len - 1 - (EDGE - 64)) as f32;
    let v = from_slice(&block[..len]);
    let k = i / 160;
    let p = f32::from_bits((((len - 1) as f32).to_bits() as i64 + (k % 16) as i64 - 8) as u32);
    match v.lerp(p) {
        Ok(x) => ensure!(p as usize <= len - 1 && (0.0..=last).contains(&x), "lerp({p:?}) on a view of length {len} returned the sample {x:?}, the last one is {last:?}"),
        Err(_) => ensure!(p as usize > len - 1 || (p as usize == len - 1 && p.fract() != 0.0), "lerp({p:?}) on a view of length {len} was refused"),
    }
    let x = v.lerp_wrapped(p);
    ensure!((0.0..=last).contains(&x), "lerp_wrapped({p:?}) on a view of length {len} returned {x:?}, the last sample is {last:?}");
    let p = p as usize;
    ensure!(v.get(p).is_ok() == (p < len), "get({p}) on a view of length {len}");
    let x = v.get_wrapped(p as isize);
    ensure!((0.0..=last).contains(&x), "get_wrapped({p}) on a view of length {len} returned {x:?}, the last sample is {last:?}");
    let x = v.get_slice_of_four_wrapped(p as isize);
    ensure!(x.iter().all(|x| (0.0..=last).contains(x)), "four-element window at {p} of length {len}: {x:?}, the last sample is {last:?}");
    Ok(len > EDGE)
}

/// Every buffer length up to 64 with every phase near the seams: the wavetable's table index.
fn table(i: u64) -> Result<bool, Fail> {
    let len = (i % 600) as usize + 1;
    let k = i / 600;
    let v = if k < 256 { (k as u32).wrapping_sub(128) } else { mix(i) as u32 };
    let a = Arena::new(&vec![0.25; len]);
    let (pa, _log) = ScriptPA::scripted(vec![v, v.wrapping_add(1), !v]);
    let mut w = WavetableOscillator::new(a.view(), pa);
    for _ in 0..3 {
        let x = w.next();
        ensure!(!x.is_nan(), "table of {len} samples at phase {v:#x} read foreign memory");
    }
    ensure!(a.guards_intact(), "table of {len} samples at phase {v:#x}: memory outside was modified");
    Ok(k < 256)
}

/// The built-in tables, over all arguments.
fn tables(i: u64) -> Result<bool, Fail> {
    let x = f32::from_bits((i as u32).wrapping_mul(0x9E37_79B1));
    let r = x.lookup_bl_rect();
    ensure!((r.abs() <= 1.01) || x.is_nan(), "lookup_bl_rect({x:?}) = {r:?}");
    let r = x.lookup_sin();
    ensure!((r.abs() <= 1.01) || !x.is_finite(), "lookup_sin({x:?}) = {r:?}");
    Ok(x.is_finite())
}
/// ... and over the arguments that hit the table.
fn tables_unit(i: u64) -> Result<bool, Fail> {
    let x = f32::from_bits(0x3F80_0000 - ((i as u32).wrapping_mul(0x9E37_79B1) & 0x07FF_FFFF));
    let r = x.lookup_bl_rect();
    ensure!(r.abs() <= 1.01, "lookup_bl_rect({x:?}) = {r:?}");
    let y = (x * 8.0 - 2.0) * std::f32::consts::PI;
    let r = y.lookup_sin();
    ensure!(r.abs() <= 1.01, "lookup_sin({y:?}) = {r:?}");
    Ok(true)
}
/// ... and where their pieces meet, whatever share of the arguments a run covers.
fn tables_corners(i: u64) -> Result<bool, Fail> {
    let i = i % 4096;
    let (k, j) = ((i / 64 % 32) as f32, i as i32 % 64 - 32);
    let near = |x: f32| f32::from_bits(x.to_bits().wrapping_add_signed(j));
    let sign = if i >= 2048 { -1.0 } else { 1.0 };
    let x = sign * near(k / 8.0);
    let r = x.lookup_bl_rect();
    ensure!(r.abs() <= 1.01 || x.is_nan(), "lookup_bl_rect({x:?}) = {r:?}");
    let y = sign * near(k * std::f32::consts::FRAC_PI_4);
    let r = y.lookup_sin();
    ensure!(r.abs() <= 1.01 || y.is_nan(), "lookup_sin({y:?}) = {r:?}");
    Ok(true)
}

fn main() {
    pbt::main(
        "C01",
        &[
            rand("history", 1_600_000, 20_000_000, history),
            rand("large", 1_500, 60_000, large),
            sweep("edge", 160 * 16, 160 * 16, edge),
            sweep("table", 600 * 800, 600 * 20_000, table),
            sweep("tables", 1 << 24, 1 << 32, tables),
            sweep("tables_corners", 1 << 16, 1 << 16, tables_corners),
            sweep("tables_unit", 1 << 24, 1 << 27, tables_unit),
        ],
    );
}
