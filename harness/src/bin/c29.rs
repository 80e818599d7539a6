//! C29: a buffer view shared between threads shows every thread the same, current samples.
use embedded_audio_tools::memory_access::{from_slice, from_slice_mut, MemorySlice, Mutable, NonMutable};
use pbt::signal::*;
use pbt::*;
use pbt::watch::{Observer, Region};
use std::sync::Barrier;

/// Carries a view across threads whatever the library declares about it (that is checked separately).
#[derive(Clone, Copy)]
struct Across<T>(T);
unsafe impl<T> Send for Across<T> {}
unsafe impl<T> Sync for Across<T> {}

// Does a type implement Send / Sync? Answered at run time, so that a lost declaration is reported instead of
// breaking the build.
#[allow(dead_code)]
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
mod yes_send {
    pub struct P<T>(pub std::marker::PhantomData<T>);
    #[allow(dead_code)]
    impl<T: Send> P<T> {
        pub const SEND: bool = true;
    }
    impl<T> super::No for P<T> {}
}
mod yes_sync {
    pub struct P<T>(pub std::marker::PhantomData<T>);
    #[allow(dead_code)]
    impl<T: Sync> P<T> {
        pub const SYNC: bool = true;
    }
    impl<T> super::No for P<T> {}
}

fn declared(_: u64) -> Result<bool, Fail> {
    ensure!(yes_send::P::<MemorySlice<NonMutable>>::SEND, "a read-only view cannot be sent to another thread");
    ensure!(yes_send::P::<MemorySlice<Mutable>>::SEND, "a view cannot be sent to another thread");
    ensure!(yes_sync::P::<MemorySlice<NonMutable>>::SYNC, "a read-only view cannot be shared with another thread");
    ensure!(yes_sync::P::<MemorySlice<Mutable>>::SYNC, "a view cannot be shared with another thread");
    ensure!(yes_send::P::<embedded_audio_tools::DelayLine>::SEND, "a delay line cannot be sent to another thread");
    Ok(true)
}

#[derive(Clone, Copy)]
enum Op {
    Write(usize, f32),
    /// position, expected value, how
    Read(usize, f32, u8),
}

fn perform(v: &mut MemorySlice<Mutable>, off: usize, ops: &[Op]) -> Res {
    for op in ops {
        match *op {
            Op::Write(i, x) => ensure!(v.assign(i - off, x).is_ok(), "write at {i} was rejected"),
            Op::Read(i, x, how) => {
                let i = i - off;
                let got = match how {
                    0 => v.get(i).unwrap_or(f32::NAN),
                    1 => unsafe { v.get_unchecked(i) },
                    2 => v.get_wrapped(i as isize - v.len() as isize),
                    3 => v.lerp_wrapped(i as f32),
                    _ => v.lerp(i as f32).unwrap_or(f32::NAN),
                };
                ensure!(got == x, "a thread read {got} at {} instead of {x}, the value stored there last", i + off);
            }
        }
    }
    Ok(())
}

/// Threads take turns in phases; in every phase each cell belongs to one thread, which reads what others left
/// there before and writes new samples.
fn script(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = length(s, 1).min(64);
    let threads = s.usize_in(2, 4);
    let phases = s.usize_in(1, 5);
    let mut model: Vec<(f32, usize)> = (0..len).map(|i| (i as f32, usize::MAX)).collect();
    let mut plan: Vec<Vec<Vec<Op>>> = vec![vec![vec![]; phases]; threads];
    let mut next = 1000.0f32;
    let mut crossing = 0;
    for p in 0..phases {
        let owner: Vec<usize> = (0..len).map(|_| s.usize_in(0, threads - 1)).collect();
        for _ in 0..s.usize_in(1, 12) {
            let i = s.usize_in(0, len - 1);
            let t = owner[i];
            if s.chance(1, 2) {
                next += 1.0;
                model[i] = (next, t);
                plan[t][p].push(Op::Write(i, next));
                cx.note(|| format!("phase {p}: thread {t} writes {next} at {i}"));
            } else {
                crossing += (model[i].1 != t && model[i].1 != usize::MAX) as u32;
                let how = s.below(5) as u8;
                plan[t][p].push(Op::Read(i, model[i].0, how));
                cx.note(|| format!("phase {p}: thread {t} reads {} at {i} (how {how})", model[i].0));
            }
        }
    }
    let a = Arena::new(&(0..len).map(|i| i as f32).collect::<Vec<_>>());
    let view = a.view_mut();
    let barrier = Barrier::new(threads);
    let mut results: Vec<Res> = vec![];
    let shared = Across(&view);
    std::thread::scope(|sc| {
        let hs: Vec<_> = plan
            .iter()
            .map(|ops| {
                let barrier = &barrier;
                sc.spawn(move || {
                    let shared = shared;
                    // a copy of the view that was shared by reference
                    let mut own: MemorySlice<Mutable> = *shared.0;
                    let mut r: Res = Ok(());
                    for ph in ops {
                        if r.is_ok() {
                            r = match catching(|| perform(&mut own, 0, ph)) {
                                Ok(r) => r,
                                Err((at, m)) => fail(format!("library code panicked: {m} (at {at})")),
                            };
                        }
                        barrier.wait();
                    }
                    r
                })
            })
            .collect();
        results = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("a thread panicked".into()))).collect();
    });
    for r in results {
        r?;
    }
    for i in 0..len {
        ensure!(a.at(i) == model[i].0, "element {i} is {} in the end, {} was stored there last", a.at(i), model[i].0);
    }
    ensure!(a.guards_intact(), "memory outside the buffer changed");
    cx.label_if(crossing > 0, "reads another thread's sample");
    cx.nontrivial_if(crossing > 0);
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------
// Interleavings at the level of single memory accesses: see pbt::watch.  "The other thread" runs inside the
// observer, between two accesses of the code under test, at points chosen by the case.

#[derive(Clone, Copy, PartialEq, Debug)]
enum Now {
    Idle,
    Read(usize),
    Write(usize, u32),
}

/// The other thread, and the memory as everybody should see it.
struct Other {
    mem: *mut u32,
    model: Vec<u32>,
    /// before access k the other thread stores these
    plan: Vec<Vec<(usize, u32)>>,
    k: usize,
    now: Now,
    /// values of the accessed element at the moments of the current operation's accesses
    seen: Vec<u32>,
    stored: bool,
    bad: Option<(usize, u32, u32, Now)>,
}

impl Observer for Other {
    fn before(&mut self, _at: usize, _write: bool) {
        if let Some(w) = self.plan.get(self.k) {
            for &(cell, bits) in w {
                unsafe { self.mem.add(cell).write_volatile(bits) };
                self.model[cell] = bits;
            }
        }
        self.k += 1;
        if let Now::Read(i) = self.now {
            if self.seen.len() < self.seen.capacity() {
                self.seen.push(self.model[i]);
            }
        }
    }
    fn after(&mut self) {
        for j in 0..self.model.len() {
            let m = unsafe { self.mem.add(j).read_volatile() };
            if m != self.model[j] {
                if self.now == Now::Write(j, m) {
                    self.stored = true;
                } else if self.bad.is_none() {
                    self.bad = Some((j, m, self.model[j], self.now));
                }
                self.model[j] = m;
            }
        }
    }
}

impl Other {
    fn op<T>(&mut self, r: &Region, now: Now, f: impl FnOnce() -> T) -> Result<T, Fail> {
        self.now = now;
        self.seen.clear();
        self.stored = false;
        let out = r.run(self, || catching(f));
        self.now = Now::Idle;
        match out {
            Ok(x) => Ok(x),
            Err((at, m)) => fail(format!("library code panicked: {m} (at {at})")),
        }
    }
}

/// A thread works on a view while another one stores samples between any two of its accesses: a read answers
/// with a value the element had during the read, a write stores exactly one sample, and nothing the other
/// thread stored is ever undone.
fn interleaved(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = s.usize_in(1, 12);
    let off = s.usize_in(0, 6);
    let around = off + len + s.usize_in(0, 6);
    let region = Region::new(around * 4);
    // sometimes flush with the end of the mapping
    let first = if s.chance(1, 4) { region.elements() - around } else { 0 };
    let mem = unsafe { region.ptr().add(first) };
    // all different, in both halves of the word: numbers, tiny numbers, NaNs
    let mut next = 0u32;
    let mut fresh = || {
        next += 1;
        let mess = next.wrapping_mul(0x9E37_79B1);
        match next % 4 {
            0 => 0x7FC0_0000 | (mess & 0x3F_FFFF),
            1 => (mess & 0x7F_FFFF) | next >> 3 << 31,
            _ => (mess & 0xBFFF_FFFF) | 0x0080_0000,
        }
    };
    let mut model = vec![];
    for i in 0..around {
        model.push(fresh());
        unsafe { mem.add(i).write_volatile(f32::from_bits(model[i])) };
    }
    let ops = s.usize_in(1, 16);
    let mut busy = false;
    let plan: Vec<Vec<(usize, u32)>> = (0..2 * ops)
        .map(|_| {
            let n = s.weighted(&[3, 3, 2, 1]);
            (0..n).map(|_| (s.usize_in(0, around - 1), fresh())).collect()
        })
        .collect();
    let mut o = Other { mem: mem as *mut u32, model, plan, k: 0, now: Now::Idle, seen: Vec::with_capacity(64), stored: false, bad: None };
    let mut v = from_slice_mut(unsafe { std::slice::from_raw_parts_mut(mem.add(off), len) });
    let n = from_slice(unsafe { std::slice::from_raw_parts(mem.add(off), len) });
    cx.note(|| format!("view of {len} at {off} of {around} elements"));
    for _ in 0..ops {
        let i = s.usize_in(0, len - 1);
        let turns = s.i64_in(-2, 2) as isize * len as isize;
        let how = s.below(12);
        let at = i as isize + turns;
        let k0 = o.k;
        if how < 8 {
            let now = Now::Read(off + i);
            let (name, got) = match how {
                0 => ("get", o.op(&region, now, || v.get(i).unwrap_or(f32::NAN))?),
                1 => ("get_unchecked", o.op(&region, now, || unsafe { v.get_unchecked(i) })?),
                2 => ("get_wrapped", o.op(&region, now, || v.get_wrapped(at))?),
                3 => ("get_wrapped_unchecked", o.op(&region, now, || unsafe { v.get_wrapped_unchecked(at) })?),
                4 => ("get of a read-only view", o.op(&region, now, || n.get(i).unwrap_or(f32::NAN))?),
                5 => ("get_wrapped of a read-only view", o.op(&region, now, || n.get_wrapped(at))?),
                6 => ("get_unchecked of a read-only view", o.op(&region, now, || unsafe { n.get_unchecked(i) })?),
                _ => (
                    "get of a sub-view",
                    o.op(&region, now, || v.get_sub_slice(i, 1).ok().and_then(|w| w.get(0).ok()).unwrap_or(f32::NAN))?,
                ),
            };
            cx.label(name);
            cx.note(|| {
                let w: Vec<_> = (k0..o.k).flat_map(|k| o.plan.get(k).cloned().unwrap_or_default()).map(|(c, b)| format!("[{c}]={}", f32::from_bits(b))).collect();
                format!("{name}({i}, {at}) while the other thread stores {w:?}")
            });
            ensure!(!o.seen.is_empty(), "{name} at {i} answered {got} without looking at the memory");
            ensure!(
                o.seen.contains(&got.to_bits()),
                "{name} at {i} answered {got}, the element held {:?} when it was accessed",
                o.seen.iter().map(|b| f32::from_bits(*b)).collect::<Vec<_>>()
            );
            busy |= (k0..o.k).any(|k| o.plan.get(k).is_some_and(|w| w.iter().any(|x| x.0 == off + i)));
        } else if how < 11 {
            let x = fresh();
            let now = Now::Write(off + i, x);
            let xv = f32::from_bits(x);
            let name = if how == 8 { "assign_unchecked" } else { "assign" };
            let ok = o.op(&region, now, || {
                if how == 8 {
                    unsafe { v.assign_unchecked(i, xv) };
                    true
                } else {
                    v.assign(i, xv).is_ok()
                }
            })?;
            cx.label(name);
            cx.note(|| format!("{name}({i}, {xv})"));
            ensure!(ok, "{name} at {i} of {len} was rejected");
            ensure!(o.stored, "{name}: the sample {xv} for {i} did not reach the memory");
            busy |= (k0..o.k).any(|k| o.plan.get(k).is_some_and(|w| !w.is_empty()));
        } else {
            let far = len + i;
            let r = o.op(&region, Now::Idle, || (v.get(far).is_err(), v.assign(far, -1.0).is_err()))?;
            cx.label("rejected");
            cx.note(|| format!("get and assign at {far}"));
            ensure!(r == (true, true), "access at {far} of a view of {len} was accepted");
        }
        if let Some((j, m, was, now)) = o.bad {
            let j = j as isize - off as isize;
            return fail(format!(
                "during {now:?} element {j} of the view changed from {} to {}: other threads lose a sample or see one nobody stored",
                f32::from_bits(was),
                f32::from_bits(m),
            ));
        }
    }
    for j in 0..around {
        ensure!(unsafe { (mem as *const u32).add(j).read_volatile() } == o.model[j], "memory differs in the end");
    }
    cx.nontrivial_if(busy);
    Ok(())
}

// Optimised loops over nothing but accesses: merged accesses show here.

/// Stores a new number in `cell` before every access, starting with access `from`.
struct Bump {
    cell: *mut f32,
    from: u32,
    k: u32,
}
impl Observer for Bump {
    fn before(&mut self, _at: usize, _write: bool) {
        if self.k >= self.from {
            unsafe { self.cell.write_volatile((self.k + 1) as f32) };
        }
        self.k += 1;
    }
    fn after(&mut self) {}
}

/// Writes down every value `cell` takes.
struct Log {
    cell: *const f32,
    last: f32,
    log: Vec<f32>,
}
impl Observer for Log {
    fn before(&mut self, _at: usize, _write: bool) {}
    fn after(&mut self) {
        let x = unsafe { self.cell.read_volatile() };
        if x != self.last && self.log.len() < self.log.capacity() {
            self.log.push(x);
            self.last = x;
        }
    }
}

/// Answers in `answer` with the negative of what is in `ask`, before every access.
struct Answer {
    ask: *const f32,
    answer: *mut f32,
}
impl Observer for Answer {
    fn before(&mut self, _at: usize, _write: bool) {
        unsafe { self.answer.write_volatile(-self.ask.read_volatile()) };
    }
    fn after(&mut self) {}
}

macro_rules! readers {
    ($($m:ident: $ty:ty, $v:ident, $i:ident, $e:expr;)*) => {
        $(mod $m {
            use super::*;
            /// how many of `n` reads gave the same as the one before
            #[inline(never)]
            pub fn stalls($v: $ty, $i: usize, n: u32) -> u32 {
                let mut last: f32 = $e;
                let mut stalled = 0u32;
                for _ in 0..n {
                    let x: f32 = $e;
                    stalled += (x == last) as u32;
                    last = x;
                }
                stalled
            }
            /// waits for a change
            #[inline(never)]
            pub fn wait($v: $ty, $i: usize, n: u32) -> u32 {
                let start: f32 = $e;
                let mut k = 0u32;
                while k < n {
                    let x: f32 = $e;
                    if x != start {
                        break;
                    }
                    k += 1;
                }
                k
            }
            /// waits for a known value to go away
            #[inline(never)]
            pub fn poll($v: $ty, $i: usize, n: u32) -> u32 {
                let mut k = 0u32;
                while k < n && $e == 0.0 {
                    k += 1;
                }
                k
            }
            /// two reads in a row, summed as whole numbers
            #[inline(never)]
            pub fn twice($v: $ty, $i: usize) -> (f32, f32) {
                let a: f32 = $e;
                let b: f32 = $e;
                (a, b)
            }
        })*
    };
}
readers! {
    get: MemorySlice<Mutable>, v, i, v.get(i).unwrap_or(-1.0);
    unchecked: MemorySlice<Mutable>, v, i, unsafe { v.get_unchecked(i) };
    wrapped: MemorySlice<Mutable>, v, i, v.get_wrapped(i as isize);
    wrapped_far: MemorySlice<Mutable>, v, i, v.get_wrapped(i as isize - v.len() as isize);
    wrapped_unchecked: MemorySlice<Mutable>, v, i, unsafe { v.get_wrapped_unchecked(i as isize) };
    get_ro: MemorySlice<NonMutable>, v, i, v.get(i).unwrap_or(-1.0);
    unchecked_ro: MemorySlice<NonMutable>, v, i, unsafe { v.get_unchecked(i) };
    wrapped_ro: MemorySlice<NonMutable>, v, i, v.get_wrapped(i as isize);
    wrapped_far_ro: MemorySlice<NonMutable>, v, i, v.get_wrapped(i as isize - v.len() as isize);
    wrapped_unchecked_ro: MemorySlice<NonMutable>, v, i, unsafe { v.get_wrapped_unchecked(i as isize) };
}

macro_rules! writers {
    ($($m:ident: $v:ident, $i:ident, $x:ident, $e:expr;)*) => {
        $(mod $m {
            use super::*;
            #[inline(never)]
            pub fn burst(mut $v: MemorySlice<Mutable>, $i: usize, n: u32) {
                for k in 1..=n {
                    let $x = k as f32;
                    $e;
                }
            }
            /// 1, 0, 1, 0, ...
            #[inline(never)]
            pub fn pulse(mut $v: MemorySlice<Mutable>, $i: usize, n: u32) {
                for _ in 0..n {
                    {
                        let $x = 1.0f32;
                        $e;
                    }
                    {
                        let $x = 0.0f32;
                        $e;
                    }
                }
            }
            /// asks a question in `i` and reads the answer from `j`; counts wrong answers
            #[inline(never)]
            pub fn ask(mut $v: MemorySlice<Mutable>, $i: usize, j: usize, n: u32) -> u32 {
                let mut wrong = 0;
                for k in 1..=n {
                    let $x = k as f32;
                    $e;
                    let y = $v.get(j).unwrap_or(0.0);
                    let z = unsafe { $v.get_unchecked(j) };
                    wrong += (y != -$x || (z != -$x && $i != j)) as u32;
                }
                wrong
            }
        })*
    };
}
writers! {
    assign: v, i, x, { let _ = v.assign(i, x); };
    assign_unchecked: v, i, x, unsafe { v.assign_unchecked(i, x) };
}

macro_rules! read_row {
    ($v:expr, $n:expr, $c:ident, $k:ident; $($idx:literal $m:ident $w:ident $what:literal),*) => {
        match $c { $($idx => match $k {
            0 => ($what, Loop::Stalls($m::stalls(row!($w $v $n), ROW_I.get(), 40))),
            1 => ($what, Loop::Until($m::wait(row!($w $v $n), ROW_I.get(), 400))),
            2 => ($what, Loop::Until($m::poll(row!($w $v $n), ROW_I.get(), 400))),
            _ => ($what, Loop::Two($m::twice(row!($w $v $n), ROW_I.get()))),
        },)* _ => unreachable!() }
    };
}
macro_rules! row {
    (rw $v:tt $n:tt) => { $v };
    (ro $v:tt $n:tt) => { $n };
}
enum Loop {
    Stalls(u32),
    Until(u32),
    Two((f32, f32)),
}
thread_local!(static ROW_I: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });

fn unelided(s: &mut Src, cx: &mut Ctx) -> Res {
    let len = s.usize_in(1, 9);
    let i = s.usize_in(0, len - 1);
    let off = s.usize_in(0, 5);
    let region = Region::new(4 * (off + len));
    let mem = unsafe { region.ptr().add(off) };
    let v = from_slice_mut(unsafe { std::slice::from_raw_parts_mut(mem, len) });
    let ro = from_slice(unsafe { std::slice::from_raw_parts(mem, len) });
    let cell = unsafe { mem.add(i) };
    cx.nontrivial();
    let which = s.usize_in(0, 12);
    let clean = |r: Result<(), (String, String)>| match r {
        Ok(()) => Ok(()),
        Err((at, m)) => fail(format!("library code panicked: {m} (at {at})")),
    };
    if which < 10 {
        let kind = s.usize_in(0, 3);
        let from = if kind == 1 || kind == 2 { s.usize_in(0, 60) as u32 } else { 0 };
        let mut o = Bump { cell, from, k: 0 };
        ROW_I.set(i);
        let mut got = None;
        clean(region.run(&mut o, || {
            catching(|| {
                got = Some(read_row!(v, ro, which, kind;
                    0 get rw "get", 1 unchecked rw "get_unchecked", 2 wrapped rw "get_wrapped",
                    3 wrapped_far rw "get_wrapped (below zero)", 4 wrapped_unchecked rw "get_wrapped_unchecked",
                    5 get_ro ro "get (read-only)", 6 unchecked_ro ro "get_unchecked (read-only)",
                    7 wrapped_ro ro "get_wrapped (read-only)", 8 wrapped_far_ro ro "get_wrapped (read-only, below zero)",
                    9 wrapped_unchecked_ro ro "get_wrapped_unchecked (read-only)"))
            })
        }))?;
        let (name, got) = got.unwrap();
        cx.label(name);
        cx.note(|| format!("{name}({i}) on a view of {len}, loop {kind}, another thread changes the sample before every read from number {from} on"));
        match got {
            Loop::Stalls(k) => ensure!(k == 0, "{k} of 40 reads in a loop over {name} missed the change made just before them: the reads are not performed individually"),
            // the start value may be read at access `from` or before it
            Loop::Until(k) => ensure!(k <= from + 1, "a loop over {name} waiting for a change did not notice it: changed from read {from} on, {k} reads went by"),
            Loop::Two((a, b)) => ensure!(a < b, "two reads by {name} gave {a} and {b} although the sample changed in between: the reads are not performed individually"),
        }
    } else {
        let unchecked = s.chance(1, 2);
        let name = if unchecked { "assign_unchecked" } else { "assign" };
        cx.label(name);
        if which < 12 {
            let pulse = which == 11;
            let n = s.usize_in(1, 40) as u32;
            cx.note(|| format!("{name}({i}, ..) {n} times in a loop (pulse: {pulse}) on a view of {len}, another thread looks after each access"));
            let mut o = Log { cell, last: 0.0, log: Vec::with_capacity(100) };
            clean(region.run(&mut o, || {
                catching(|| match (pulse, unchecked) {
                    (false, false) => assign::burst(v, i, n),
                    (false, true) => assign_unchecked::burst(v, i, n),
                    (true, false) => assign::pulse(v, i, n),
                    (true, true) => assign_unchecked::pulse(v, i, n),
                })
            }))?;
            let want: Vec<f32> = if pulse { (0..2 * n).map(|k| (1 - k % 2) as f32).collect() } else { (1..=n).map(|k| k as f32).collect() };
            ensure!(o.log == want, "{name} in a loop: the memory went through {:?} instead of {want:?}: the writes are not performed individually", o.log);
        } else {
            let j = s.usize_in(0, len - 1);
            let n = s.usize_in(1, 20) as u32;
            cx.label(if i == j { "answer in place" } else { "answer" });
            cx.note(|| format!("{name}({i}, question) then get({j}) {n} times on a view of {len}, another thread answers in {j}"));
            let mut o = Answer { ask: cell, answer: unsafe { mem.add(j) } };
            let mut wrong = 0;
            clean(region.run(&mut o, || {
                catching(|| {
                    wrong = if unchecked { assign_unchecked::ask(v, i, j, n) } else { assign::ask(v, i, j, n) }
                })
            }))?;
            ensure!(wrong == 0, "{name} at {i} followed by get({j}): {wrong} of {n} answers of the other thread were missed");
        }
    }
    Ok(())
}

/// The observer itself: a plain volatile loop is seen access by access.
fn instrument(n: u64) -> Result<bool, Fail> {
    let region = Region::new(64);
    let mut o = Bump { cell: region.ptr(), from: 0, k: 0 };
    let p = region.ptr();
    let mut sum = 0.0;
    region.run(&mut o, || {
        for _ in 0..n {
            sum += unsafe { p.read_volatile() };
            unsafe { p.add(1).write_volatile(1.0) };
        }
    });
    if o.k as u64 != 2 * n || sum as u64 != n * n {
        panic!("observable memory does not work here: {} accesses seen, {} made, sum {sum}", o.k, 2 * n);
    }
    Ok(false)
}

fn main() {
    pbt::main(
        "C29",
        &[
            sweep("instrument", 30, 30, instrument),
            sweep("declared", 1, 1, declared),
            rand("script", 6_000, 400_000, script),
            rand("interleaved", 20_000, 2_000_000, interleaved),
            rand("unelided", 12_000, 1_000_000, unelided),
        ],
    );
}
