//! C02: checked buffer access agrees with an ordinary slice.
use embedded_audio_tools::errors::MemSliceError::{self, *};
use embedded_audio_tools::memory_access::*;
use pbt::signal::*;
use pbt::*;

#[derive(Clone, Copy)]
enum V {
    M(MemorySlice<Mutable>),
    N(MemorySlice<NonMutable>),
}
macro_rules! on {
    ($v:expr, $x:ident, $e:expr) => {
        match $v {
            V::M($x) => $e,
            V::N($x) => $e,
        }
    };
}

#[derive(Clone, Copy)]
struct View {
    v: V,
    arena: usize,
    off: usize,
    len: usize,
}

fn bits_of(s: &mut Src) -> u32 {
    s.f32_any().to_bits()
}

fn name(e: &MemSliceError) -> &'static str {
    match e {
        IndexOutOfBound => "IndexOutOfBound",
        LengthOutOfBound => "LengthOutOfBound",
    }
}

fn history(s: &mut Src, cx: &mut Ctx) -> Res {
    let n_ar = s.usize_in(1, 3);
    let mut arenas: Vec<Arena> = vec![];
    let mut model: Vec<Vec<u32>> = vec![];
    for _ in 0..n_ar {
        let len = length(s, 0);
        let c: Vec<u32> = (0..len).map(|_| bits_of(s)).collect();
        arenas.push(Arena::new(&c.iter().map(|b| f32::from_bits(*b)).collect::<Vec<_>>()));
        model.push(c);
    }
    let mut views: Vec<View> = vec![];
    for (k, a) in arenas.iter().enumerate() {
        views.push(View { v: V::M(a.view_mut()), arena: k, off: 0, len: a.len() });
        views.push(View { v: V::N(a.view()), arena: k, off: 0, len: a.len() });
    }
    let steps = s.usize_in(1, 40);
    let (mut ok_ops, mut err_ops) = (0, 0);
    cx.note(|| format!("buffers of {:?}", arenas.iter().map(|a| a.len()).collect::<Vec<_>>()));
    for _ in 0..steps {
        let w = s.below(views.len() as u64) as usize;
        let view = views[w];
        let (a, off, len) = (view.arena, view.off, view.len);
        match s.weighted(&[5, 6, 6, 2, 1, 2, 2, 2, 2]) {
            0 => {
                let i = any_index(s, len);
                cx.note(|| format!("view{w}(len {len}).get({i})"));
                let r = on!(view.v, x, x.get(i));
                match r {
                    Ok(f) => {
                        ensure!(i < len, "get({i}) succeeded on a view of length {len}");
                        ensure!(f.to_bits() == model[a][off + i], "get({i}) returned {:08x}, memory holds {:08x}", f.to_bits(), model[a][off + i]);
                        ok_ops += 1;
                    }
                    Err(e) => {
                        ensure!(i >= len, "get({i}) failed with {} on a view of length {len}", name(&e));
                        ensure!(e == IndexOutOfBound, "get({i}) beyond length {len} reported {}", name(&e));
                        err_ops += 1;
                    }
                }
            }
            1 => {
                let i = any_index(s, len);
                let b = bits_of(s);
                if let V::M(mut m) = view.v {
                    cx.note(|| format!("view{w}(len {len}).assign({i},{b:08x})"));
                    match m.assign(i, f32::from_bits(b)) {
                        Ok(()) => {
                            ensure!(i < len, "assign({i}) succeeded on a view of length {len}");
                            model[a][off + i] = b;
                            ok_ops += 1;
                        }
                        Err(e) => {
                            ensure!(i >= len, "assign({i}) failed with {} on a view of length {len}", name(&e));
                            ensure!(e == IndexOutOfBound, "assign({i}) beyond length {len} reported {}", name(&e));
                            err_ops += 1;
                        }
                    }
                }
            }
            2 => {
                let o = any_index(s, len);
                let l = match s.weighted(&[3, 3, 1]) {
                    0 => {
                        let room = len.saturating_sub(o);
                        s.usize_in(0, room)
                    }
                    1 => len.saturating_sub(o).wrapping_add(s.usize_in(0, 4)).wrapping_sub(2),
                    _ => any_index(s, len),
                };
                cx.note(|| format!("view{w}(len {len}).get_sub_slice({o},{l})"));
                let r = match view.v {
                    V::M(x) => x.get_sub_slice(o, l).map(V::M),
                    V::N(x) => x.get_sub_slice(o, l).map(V::N),
                };
                let fits = o < len && (o as u128 + l as u128) <= len as u128;
                match r {
                    Ok(v) => {
                        ensure!(fits, "sub-view ({o},{l}) of a view of length {len} was granted");
                        views.push(View { v, arena: a, off: off + o, len: l });
                        cx.label("sub-view");
                        cx.label_if(l == 0, "empty sub-view");
                        cx.label_if(o + l == len, "sub-view reaching the end");
                        cx.label_if(off != 0, "nested sub-view");
                        ok_ops += 1;
                    }
                    Err(e) => {
                        ensure!(!fits, "sub-view ({o},{l}) of a view of length {len} was refused with {}", name(&e));
                        let want = if o >= len { IndexOutOfBound } else { LengthOutOfBound };
                        ensure!(e == want, "sub-view ({o},{l}) of a view of length {len} reported {} instead of {}", name(&e), name(&want));
                        err_ops += 1;
                    }
                }
            }
            3 => {
                // raw conversions
                let p = on!(view.v, x, x.as_slice());
                ensure!(p.len() == len, "as_slice has length {} instead of {len}", p.len());
                ensure!(p as *const f32 == unsafe { arenas[a].ptr().add(off) } as *const f32, "as_slice starts elsewhere");
                if let V::M(mut m) = view.v {
                    let p = m.as_slice_mut();
                    ensure!(p.len() == len, "as_slice_mut has length {} instead of {len}", p.len());
                    ensure!(p as *mut f32 == unsafe { arenas[a].ptr().add(off) }, "as_slice_mut starts elsewhere");
                    if len > 0 && s.chance(1, 2) {
                        // write through the raw slice
                        let i = s.usize_in(0, len - 1);
                        let b = bits_of(s);
                        unsafe { (p as *mut f32).add(i).write(f32::from_bits(b)) };
                        model[a][off + i] = b;
                    }
                }
            }
            4 => {
                let n = if s.chance(1, 2) { V::M(null_mut()) } else { V::N(null()) };
                ensure!(on!(n, x, x.len()) == 0, "null view is not empty");
                ensure!(on!(n, x, x.get(0)) == Err(IndexOutOfBound), "null view can be read");
                ensure!(on!(n, x, x.get_sub_slice(0, 0).is_err()), "null view has a sub-view");
            }
            5 => {
                views.push(view);
                cx.label("copied view");
            }
            6 => {
                // re-point at part of an arena
                let t = s.below(n_ar as u64) as usize;
                let o = s.usize_in(0, arenas[t].len());
                let l = s.usize_in(0, arenas[t].len() - o);
                let p = unsafe { arenas[t].ptr().add(o) };
                let mut v = view.v;
                match &mut v {
                    V::M(m) => unsafe {
                        if s.chance(1, 2) {
                            m.change_mut_slice_unchecked(p, l)
                        } else {
                            m.change_slice_unchecked(p, l)
                        }
                    },
                    V::N(m) => unsafe { m.change_slice_unchecked(p, l) },
                }
                cx.note(|| format!("view{w} re-pointed at buffer{t}[{o}..][..{l}]"));
                cx.label("re-pointed view");
                views[w] = View { v, arena: t, off: o, len: l };
            }
            7 => {
                // somebody else changes the memory
                if !model[a].is_empty() {
                    let i = s.usize_in(0, model[a].len() - 1);
                    let b = bits_of(s);
                    arenas[a].set(i, f32::from_bits(b));
                    model[a][i] = b;
                }
            }
            _ => {
                if len > 0 {
                    let i = s.usize_in(0, len - 1);
                    if let V::M(mut m) = view.v {
                        let b = bits_of(s);
                        unsafe { m.assign_unchecked(i, f32::from_bits(b)) };
                        model[a][off + i] = b;
                    }
                    let f = on!(view.v, x, unsafe { x.get_unchecked(i) });
                    ensure!(f.to_bits() == model[a][off + i], "unchecked read of element {i} differs");
                }
            }
        }
        for (k, v) in views.iter().enumerate() {
            ensure!(on!(v.v, x, x.len()) == v.len, "view{k} has length {} instead of {}", on!(v.v, x, x.len()), v.len);
        }
        for (k, ar) in arenas.iter().enumerate() {
            ensure!(ar.guards_intact(), "memory outside buffer{k} was modified");
            ensure!(ar.content() == model[k], "buffer{k} does not hold what was written");
        }
    }
    cx.nontrivial_if(ok_ops >= 2 && err_ops >= 1);
    Ok(())
}

/// Long buffers: accesses and (nested) sub-views far behind the start.
fn large(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = if s.chance(1, 200) { s.usize_in(1_000_000, 3_000_000) } else { big_length(s) };
    let mut model: Vec<u32> = (0..n).map(|i| (i as f32).to_bits()).collect();
    let a = Arena::new(&model.iter().map(|b| f32::from_bits(*b)).collect::<Vec<_>>());
    let (mut v, mut off, mut len) = (a.view_mut(), 0usize, n);
    cx.note(|| format!("buffer of {n}"));
    ensure!(v.len() == n, "length {} instead of {n}", v.len());
    for _ in 0..40 {
        let i = any_index(s, len);
        match s.below(3) {
            0 => {
                let r = v.get(i);
                ensure!(r.is_ok() == (i < len), "get({i}) on a view of length {len}: ok = {}", r.is_ok());
                if let Ok(x) = r {
                    ensure!(x.to_bits() == model[off + i], "get({i}) on a view of length {len} returned {x:?}, memory holds {:?}", f32::from_bits(model[off + i]));
                }
            }
            1 => {
                let b = bits_of(s);
                let r = v.assign(i, f32::from_bits(b));
                ensure!(r.is_ok() == (i < len), "assign({i}) on a view of length {len}: ok = {}", r.is_ok());
                if i < len {
                    model[off + i] = b;
                }
            }
            _ => {
                let l = if s.chance(1, 2) { len.saturating_sub(i).saturating_sub(s.usize_in(0, 3)) } else { any_index(s, len) };
                let fits = i < len && i as u128 + l as u128 <= len as u128;
                match v.get_sub_slice(i, l) {
                    Ok(w) => {
                        ensure!(fits && w.len() == l, "sub-view ({i},{l}) of a view of length {len} was granted with length {}", w.len());
                        if l > 40_000 {
                            (v, off, len) = (w, off + i, l);
                            cx.label("long sub-view");
                        } else if l > 0 {
                            ensure!(w.get(l - 1).map(|x| x.to_bits()) == Ok(model[off + i + l - 1]), "last element of sub-view ({i},{l})");
                        }
                    }
                    Err(e) => {
                        ensure!(!fits, "sub-view ({i},{l}) of a view of length {len} was refused");
                        ensure!(e == if i >= len { IndexOutOfBound } else { LengthOutOfBound }, "sub-view ({i},{l}) of a view of length {len}: {}", name(&e));
                    }
                }
            }
        }
    }
    ensure!(a.guards_intact() && a.content() == model, "the buffer does not hold what was written");
    cx.nontrivial();
    Ok(())
}

/// All (length, offset, sub-length) triples of small views.
fn sub_views(i: u64) -> Result<bool, Fail> {
    let (len, o, l) = ((i % 20) as usize, (i / 20 % 22) as usize, (i / 440 % 24) as usize);
    let c: Vec<f32> = (0..len).map(|k| k as f32 + 1.0).collect();
    let a = Arena::new(&c);
    let fits = o < len && o + l <= len;
    match a.view().get_sub_slice(o, l) {
        Ok(v) => {
            ensure!(fits, "sub-view ({o},{l}) of a view of length {len} was granted");
            for k in 0..l {
                ensure!(v.get(k) == Ok(c[o + k]), "element {k} of sub-view ({o},{l}) of length {len} is wrong");
            }
            ensure!(v.get(l) == Err(IndexOutOfBound), "sub-view ({o},{l}) is longer than asked for");
        }
        Err(e) => {
            ensure!(!fits, "sub-view ({o},{l}) of a view of length {len} was refused");
            ensure!(e == if o >= len { IndexOutOfBound } else { LengthOutOfBound }, "sub-view ({o},{l}) of length {len}: wrong error");
        }
    }
    Ok(len > 0)
}

/// Every element of views of every length (to 2100 and the common ones above).
fn lengths(i: u64) -> Result<bool, Fail> {
    let len = every_length(i);
    let a = Arena::new(&(0..len + 2).map(|k| k as f32).collect::<Vec<_>>());
    let (mut m, n) = (a.part_mut(1, len), a.part(1, len));
    ensure!(m.len() == len && n.len() == len, "view of {len} has length {}", m.len());
    for k in 0..len {
        let want = (k + 1) as f32;
        ensure!(m.get(k) == Ok(want) && n.get(k) == Ok(want), "element {k} of a view of {len} reads {:?}", m.get(k));
        ensure!(m.assign(k, -want).is_ok(), "element {k} of a view of {len} cannot be written");
    }
    for k in [len, len + 1, 2 * len] {
        ensure!(m.get(k) == Err(IndexOutOfBound) && n.get(k) == Err(IndexOutOfBound), "element {k} of a view of {len} can be read");
        ensure!(m.assign(k, 0.5) == Err(IndexOutOfBound), "element {k} of a view of {len} can be written");
    }
    for k in (0..len).step_by(1 + len / 97) {
        for l in [1, len - k] {
            let w = n.get_sub_slice(k, l).map(|w| (w.len(), w.get(0), w.get(l - 1)));
            let want = (l, Ok(-((k + 1) as f32)), Ok(-((k + l) as f32)));
            ensure!(matches!(&w, Ok(x) if *x == want), "sub-view ({k},{l}) of a view of {len}: {w:?}, want {want:?}");
        }
    }
    ensure!(a.guards_intact(), "memory outside the buffer was modified");
    for k in 0..len + 2 {
        let want = if k == 0 || k == len + 1 { k as f32 } else { -(k as f32) };
        ensure!(a.at(k) == want, "after writing every element of a view of {len}, element {} is {}", k as i64 - 1, a.at(k));
    }
    Ok(true)
}

fn main() {
    pbt::main("C02", &[rand("history", 1_500_000, 60_000_000, history), rand("large", 4_000, 150_000, large), sweep("lengths", EVERY_LENGTH, EVERY_LENGTH, lengths), sweep("sub-views", 20 * 22 * 24, 20 * 22 * 24, sub_views)]);
}
