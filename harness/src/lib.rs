//! A small property-based testing engine.
//!
//! Every generated case is a function of a *choice tape* (`Src`): in generation mode the choices
//! come from a seeded PRNG and are recorded, in replay mode they are read back.  Shrinking edits
//! the tape (deletes spans, zeroes, halves) and keeps whatever still fails, so one mechanism
//! shrinks values, structures and operation histories alike, and a failing tape is the replay file.
//!
//! Runs are a pure function of (code, seed, tier): work is split into a fixed number of shards,
//! each with its own derived seed.

#![allow(unexpected_cfgs)]

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fs::File;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub mod every;
pub mod filt;
pub mod num;
pub mod signal;
pub mod watch;

pub const SHARDS: usize = 8;

// ---------------------------------------------------------------------------------------------
// Source of choices
// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut n = || {
            s = s.wrapping_add(0x1234_5678_9ABC_DEF1);
            mix(s)
        };
        Rng([n(), n(), n(), n()])
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        // xoshiro256**
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub struct Src {
    rng: Option<Rng>,
    pub tape: Vec<u64>,
    pos: usize,
    /// While reproducing a crash every choice is written out before it is used.
    spill: Option<File>,
}

impl Src {
    fn generating(rng: Rng) -> Src {
        Src { rng: Some(rng), tape: Vec::with_capacity(256), pos: 0, spill: None }
    }
    pub fn replaying(tape: Vec<u64>) -> Src {
        Src { rng: None, tape, pos: 0, spill: None }
    }

    /// A choice in `0..n` (`n == 0`: any u64).  0 is always the simplest choice.
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        match &mut self.rng {
            Some(r) => {
                let v = r.next();
                let v = if n == 0 { v } else { ((v as u128 * n as u128) >> 64) as u64 };
                if let Some(f) = &self.spill {
                    let _ = f.write_at(&v.to_le_bytes(), 8 * self.tape.len() as u64);
                }
                self.tape.push(v);
                v
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if n == 0 {
                    v
                } else {
                    v % n
                }
            }
        }
    }
    /// Inclusive range.
    pub fn usize_in(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo) as u64 + 1) as usize
    }
    pub fn i64_in(&mut self, lo: i64, hi: i64) -> i64 {
        // 0 maps to the value closest to zero
        let span = (hi as i128 - lo as i128 + 1) as u64;
        let base = if lo <= 0 && hi >= 0 { 0 } else { lo };
        let v = self.below(span) as i128 + base as i128;
        if v > hi as i128 {
            (v - span as i128) as i64
        } else {
            v as i64
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // "false" is simplest
        self.below(den) >= den - num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    /// Weighted choice of an index; put the simplest alternative first.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// Uniform in [0,1), fine enough for every mantissa of an f32.
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 40) as f64 / (1u64 << 40) as f64
    }
    /// Uniform-ish f32 in [lo,hi] with the end points, zero and simple values over-represented.
    pub fn f32_in(&mut self, lo: f32, hi: f32) -> f32 {
        let clampf = |v: f32| v.clamp(lo, hi);
        match self.weighted(&[1, 1, 1, 2, 2, 14, 1]) {
            0 => clampf(0.0),
            1 => lo,
            2 => hi,
            3 => clampf(self.pick(&[
                1.0, -1.0, 0.5, -0.5, 2.0, 0.25, 0.75, -0.25, -0.75, -2.0, 0.1, -0.1, 10.0, 100.0, 0.01, 0.001, 3.0, 4.0, 0.999_999_94, -0.999_999_94,
                std::f32::consts::FRAC_1_SQRT_2, -std::f32::consts::FRAC_1_SQRT_2, std::f32::consts::SQRT_2, 1.000_000_1,
            ])),
            4 => {
                let digits = self.usize_in(1, 3);
                clampf(rounded(lo as f64 + (hi as f64 - lo as f64) * self.unit(), digits))
            }
            6 => {
                // next to nothing, from either side
                let v = self.pick(&[1e-3, 1e-7, 1e-12, 1e-18, 1e-24, 0.0]) * self.unit() as f32;
                let v = if self.chance(1, 2) { -v } else { v };
                // no negative zero where only positive numbers are asked for
                if v <= 0.0 && lo >= 0.0 {
                    lo
                } else {
                    clampf(v)
                }
            }
            _ => clampf((lo as f64 + (hi as f64 - lo as f64) * self.unit()) as f32),
        }
    }
    /// Log-uniform positive f32 in [lo,hi].
    pub fn f32_log(&mut self, lo: f32, hi: f32) -> f32 {
        match self.weighted(&[2, 2, 4, 28, 1]) {
            0 => lo,
            1 => hi,
            4 => self
                .pick(&[
                    1.0, 0.5, 2.0, 0.1, 10.0, 100.0, 1000.0, 440.0, 0.01, 0.001, 20.0, 20_000.0, 0.25, 0.75, 3.0, 4.0, 8.0, 10_000.0, 0.999_999_94,
                    std::f32::consts::FRAC_1_SQRT_2, std::f32::consts::SQRT_2, 1.000_000_1, 5.0, 200.0, 50.0, 60.0, 1e-5,
                ])
                .clamp(lo, hi),
            k => {
                let (a, b) = ((lo as f64).ln(), (hi as f64).ln());
                let digits = if k == 2 { self.usize_in(1, 3) } else { 0 };
                let v = (a + (b - a) * self.unit()).exp();
                (if k == 2 { rounded(v, digits) } else { v as f32 }).clamp(lo, hi)
            }
        }
    }
    /// One of the usual sample rates between lo and hi.
    pub fn sample_rate(&mut self, lo: f32, hi: f32) -> f32 {
        let k = if self.chance(1, 2) { self.usize_in(0, 5) } else { self.usize_in(0, RATES.len() - 1) };
        if RATES[k] >= lo && RATES[k] <= hi {
            RATES[k]
        } else {
            RATES[0]
        }
    }
    /// A sample-like value in [-1,1].
    pub fn sample(&mut self) -> f32 {
        match self.weighted(&[14, 1, 1]) {
            0 => self.f32_in(-1.0, 1.0),
            // quiet ones
            1 => self.f32_in(-1.0, 1.0) * self.f32_log(1e-9, 1.0),
            _ => self.f32_in(-1.0, 1.0) * self.f32_log(1e-36, 1.0),
        }
    }
    /// A sample of any level a signal may have before it is brought down to [-1,1].
    pub fn loud(&mut self) -> f32 {
        match self.weighted(&[10, 1, 1]) {
            0 => self.sample(),
            1 => self.sample() * 16.0,
            _ => self.sample() * self.f32_log(1.0, 1e9),
        }
    }
    /// Any finite f32, all magnitudes.
    pub fn f32_finite(&mut self) -> f32 {
        let v = self.f32_any();
        if v.is_finite() {
            v
        } else {
            f32::from_bits(v.to_bits() & 0xBFFF_FFFF)
        }
    }
    /// Any f32 bit pattern; special values over-represented.
    pub fn f32_any(&mut self) -> f32 {
        const SPECIAL: [u32; 26] = [
            0x0000_0000, 0x8000_0000, 0x3F80_0000, 0xBF80_0000, 0x3F00_0000, 0xBF00_0000, 0x7F80_0000,
            0xFF80_0000, 0x7FC0_0000, 0xFFC0_0000, 0x7F80_0001, 0x7FFF_FFFF, 0x0000_0001, 0x8000_0001,
            0x007F_FFFF, 0x0080_0000, 0x7F7F_FFFF, 0xFF7F_FFFF, 0x3F7F_FFFF, 0x3F80_0001, 0xBF7F_FFFF,
            0xBF80_0001, 0x4B80_0000, 0x4F00_0000, 0x4040_0000, 0x3400_0000,
        ];
        match self.weighted(&[2, 2, 3, 3]) {
            0 => f32::from_bits(self.pick(&SPECIAL)),
            1 => self.i64_in(-64, 64) as f32,
            2 => self.sample(),
            _ => f32::from_bits(self.below(1 << 32) as u32),
        }
    }
    pub fn vec<T>(&mut self, len: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        (0..len).map(|_| f(self)).collect()
    }
}

/// Sample rates in use, the usual ones first.
pub const RATES: [f32; 18] = [
    48_000.0, 44_100.0, 96_000.0, 8_000.0, 22_050.0, 192_000.0, 16_000.0, 32_000.0, 88_200.0, 11_025.0, 24_000.0, 12_000.0,
    176_400.0, 64_000.0, 50_000.0, 46_875.0, 384_000.0, 4_000.0,
];

/// The nearest number with that many significant decimal digits: what people type.
pub fn rounded(v: f64, digits: usize) -> f32 {
    if v == 0.0 {
        return 0.0;
    }
    let scale = 10f64.powi(digits as i32 - 1 - v.abs().log10().floor() as i32);
    if scale.is_finite() && scale > 0.0 {
        ((v * scale).round() / scale) as f32
    } else {
        v as f32
    }
}

// ---------------------------------------------------------------------------------------------
// Verdicts
// ---------------------------------------------------------------------------------------------

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// Signature a known finding may be listed under.
    pub sig: Option<String>,
}
pub type Res = Result<(), Fail>;

impl Fail {
    /// The same failure, with the step it happened at.
    pub fn at(mut self, step: u64) -> Fail {
        self.msg = format!("step {step}: {}", self.msg);
        self
    }
}

pub fn fail<T>(msg: String) -> Result<T, Fail> {
    Err(Fail { msg, sig: None })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return $crate::fail(format!($($a)*)); } };
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    labels: Vec<(&'static str, u64)>,
    describing: bool,
    pub desc: Vec<String>,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        for e in self.labels.iter_mut() {
            if e.0 == l {
                e.1 += 1;
                return;
            }
        }
        self.labels.push((l, 1));
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// Human-readable description of the case; only evaluated when a case is written out.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describing {
            self.desc.push(f());
        }
    }
}

#[derive(Clone, Copy)]
pub enum SubKind {
    /// Random generated cases.
    Rand(fn(&mut Src, &mut Ctx) -> Res),
    /// Enumeration of 0..n; Ok(true) = non-trivial.
    Sweep(fn(u64) -> Result<bool, Fail>),
}

#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    pub kind: SubKind,
    pub quick: u64,
    pub thorough: u64,
}

pub const fn rand(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Src, &mut Ctx) -> Res) -> Sub {
    Sub { name, kind: SubKind::Rand(f), quick, thorough }
}
pub const fn sweep(name: &'static str, quick: u64, thorough: u64, f: fn(u64) -> Result<bool, Fail>) -> Sub {
    Sub { name, kind: SubKind::Sweep(f), quick, thorough }
}

// ---------------------------------------------------------------------------------------------
// Running one case
// ---------------------------------------------------------------------------------------------

thread_local! {
    static PANIC_AT: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        PANIC_AT.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs library code that must not panic; turns a panic into its (location, message).
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC_AT.with(|p| p.borrow_mut().take()).unwrap_or_else(|| (String::new(), "panic".into()))
    })
}

/// A panic raised by the harness itself is an error of the check, never a violation.
fn harness_bug(loc: &str, msg: &str) -> ! {
    eprintln!("HARNESS-ERROR panic inside the harness at {loc}: {msg}");
    std::process::exit(3);
}

fn classify_panic(p: (String, String)) -> Fail {
    let (loc, msg) = p;
    if loc.starts_with("src/") || loc.contains("/harness/src/") {
        harness_bug(&loc, &msg);
    }
    Fail { msg: format!("library code panicked: {msg} (at {loc})"), sig: None }
}

fn run_tape(f: fn(&mut Src, &mut Ctx) -> Res, tape: &[u64]) -> Res {
    let mut src = Src::replaying(tape.to_vec());
    let mut cx = Ctx::default();
    match catching(|| f(&mut src, &mut cx)) {
        Ok(r) => r,
        Err(p) => Err(classify_panic(p)),
    }
}

fn describe(sub: &Sub, tape: &[u64]) -> String {
    match sub.kind {
        SubKind::Rand(f) => {
            let mut src = Src::replaying(tape.to_vec());
            let mut cx = Ctx { describing: true, ..Ctx::default() };
            let _ = catching(|| f(&mut src, &mut cx));
            cx.desc.join("; ")
        }
        SubKind::Sweep(_) => format!("index {}", tape.first().copied().unwrap_or(0)),
    }
}

fn sweep_one(f: fn(u64) -> Result<bool, Fail>, i: u64) -> Result<bool, Fail> {
    match catching(|| f(i)) {
        Ok(r) => r,
        Err(p) => Err(classify_panic(p)),
    }
}

/// Greedy tape shrinking: delete spans, zero, halve, decrement; keeps any failing (not known) tape.
fn shrink(f: fn(&mut Src, &mut Ctx) -> Res, tape: Vec<u64>, known: &[String]) -> Vec<u64> {
    let watch = |t: &[u64]| {
        if let Ok(mut b) = SHRINK_BEST.lock() {
            *b = t.to_vec();
        }
    };
    watch(&tape);
    let best = shrink_with(tape, 6000, |t| {
        SHRINK_BEAT.fetch_add(1, Ordering::Release);
        let bad = match run_tape(f, t) {
            Err(e) => !e.sig.as_ref().is_some_and(|s| known.contains(s)),
            Ok(()) => false,
        };
        if bad {
            watch(t);
        }
        bad
    });
    SHRINK_BEAT.store(0, Ordering::Release);
    best
}

pub fn shrink_with(mut best: Vec<u64>, mut budget: usize, mut fails: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    let start = Instant::now();
    loop {
        let mut improved = false;
        // delete spans
        let mut span = best.len().max(1);
        while span >= 1 {
            let mut i = 0;
            while i + span <= best.len() {
                if budget == 0 || start.elapsed().as_secs() > 60 {
                    return best;
                }
                let mut c = best.clone();
                c.drain(i..i + span);
                budget -= 1;
                if fails(&c) {
                    best = c;
                    improved = true;
                } else {
                    i += span.max(1);
                }
            }
            span /= 2;
        }
        // simplify values
        for i in 0..best.len() {
            let v = best[i];
            if v == 0 {
                continue;
            }
            let mut cands = vec![0, 1, v / 2, v - 1];
            let mut step = v / 4;
            while step > 0 {
                cands.push(v - step);
                step /= 8;
            }
            for cnd in cands {
                if cnd >= best[i] {
                    continue;
                }
                if budget == 0 || start.elapsed().as_secs() > 60 {
                    return best;
                }
                let mut c = best.clone();
                c[i] = cnd;
                budget -= 1;
                if fails(&c) {
                    best = c;
                    improved = true;
                    if cnd == 0 {
                        break;
                    }
                }
            }
        }
        if !improved {
            return best;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Driving a property
// ---------------------------------------------------------------------------------------------

struct Violation {
    sub: &'static str,
    tape: Vec<u64>,
    fail: Fail,
    case: String,
}

#[derive(Default)]
struct ShardOut {
    evals: u64,
    nontrivial: u64,
    hashes: Vec<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Vec<u64>>,
    first_fail: Option<(u64, Vec<u64>, Fail)>,
    known: HashMap<String, u64>,
}

fn hash_tape(t: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (t.len() as u64);
    for v in t {
        h = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h
}

struct Trace(Option<File>);
impl Trace {
    fn put(&self, sub: usize, tape: &[u64]) {
        if let Some(f) = &self.0 {
            let mut b = Vec::with_capacity(16 + tape.len() * 8);
            b.extend_from_slice(&(sub as u64).to_le_bytes());
            b.extend_from_slice(&(tape.len() as u64).to_le_bytes());
            for v in tape {
                b.extend_from_slice(&v.to_le_bytes());
            }
            let _ = f.write_at(&b, 0);
        }
    }
}

struct Opts {
    tier: String,
    seed: u64,
    scale: f64,
    out: String,
    known: Vec<String>,
    trace: Option<String>,
    hang: Option<String>,
    only: Option<String>,
}

// A watchdog notices a case that does not end: the calls under test cannot be interrupted, so it leaves the case
// behind for the driver to confirm and shrink, and ends the process.
const STALLED: i32 = 11;
const STALL_SECS: u64 = 15;
/// Per shard: cases begun, seed of the last one.
static BEAT: [(AtomicU64, AtomicU64); SHARDS] = [const { (AtomicU64::new(0), AtomicU64::new(0)) }; SHARDS];
/// A beat of 0: nothing to watch.
static SHRINK_BEAT: AtomicU64 = AtomicU64::new(0);
static SHRINK_BEST: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static WATCHED: AtomicUsize = AtomicUsize::new(0);

fn watchdog(dir: String) {
    let mut last = [(0u64, Instant::now()); SHARDS + 1];
    loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for k in 0..=SHARDS {
            let beat = if k < SHARDS { BEAT[k].0.load(Ordering::Acquire) } else { SHRINK_BEAT.load(Ordering::Acquire) };
            if beat == 0 || beat != last[k].0 {
                last[k] = (beat, Instant::now());
            } else if last[k].1.elapsed().as_secs() >= STALL_SECS {
                let tape = if k < SHARDS {
                    vec![u64::MAX, BEAT[k].1.load(Ordering::Acquire)]
                } else {
                    SHRINK_BEST.lock().map(|b| b.clone()).unwrap_or_default()
                };
                if let Ok(f) = File::create(format!("{dir}/stalled")) {
                    Trace(Some(f)).put(WATCHED.load(Ordering::Relaxed), &tape);
                }
                std::process::exit(STALLED);
            }
        }
    }
}

fn seed_for(opts: &Opts, sub: &str, shard: usize) -> u64 {
    let mut h = mix(opts.seed ^ 0xA5A5);
    for b in sub.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ ((shard as u64) << 32))
}

fn run_rand(
    idx: usize,
    sub: &Sub,
    f: fn(&mut Src, &mut Ctx) -> Res,
    n: u64,
    shard: usize,
    opts: &Opts,
    trace: &Trace,
) -> ShardOut {
    let mut o = ShardOut::default();
    let mut seeder = Rng::new(seed_for(opts, sub.name, shard));
    let mut tape_buf: Vec<u64> = Vec::new();
    for k in 0..n {
        let case_seed = seeder.next();
        BEAT[shard].1.store(case_seed, Ordering::Relaxed);
        BEAT[shard].0.store(k + 1, Ordering::Release);
        if trace.0.is_some() {
            // The tape is only known once the case has run; its seed is enough to regenerate it.
            trace.put(idx, &[u64::MAX, case_seed]);
        }
        let mut src = Src::generating(Rng::new(case_seed));
        std::mem::swap(&mut src.tape, &mut tape_buf);
        src.tape.clear();
        let mut cx = Ctx { labels: Vec::with_capacity(8), ..Ctx::default() };
        let r = match catching(|| f(&mut src, &mut cx)) {
            Ok(r) => r,
            Err(p) => Err(classify_panic(p)),
        };
        o.evals += 1;
        for (l, c) in &cx.labels {
            *o.labels.entry(l).or_insert(0) += c.min(&1);
        }
        if cx.nontrivial {
            o.nontrivial += 1;
            o.hashes.push(hash_tape(&src.tape));
            if o.samples.len() < 2 {
                o.samples.push(src.tape.clone());
            }
        }
        if let Err(e) = r {
            if let Some(s) = e.sig.as_ref().filter(|s| opts.known.contains(s)) {
                *o.known.entry(s.clone()).or_insert(0) += 1;
            } else {
                o.first_fail = Some((k, src.tape.clone(), e));
                break;
            }
        }
        std::mem::swap(&mut src.tape, &mut tape_buf);
    }
    BEAT[shard].0.store(0, Ordering::Release);
    o
}

fn run_sweep(
    idx: usize,
    f: fn(u64) -> Result<bool, Fail>,
    n: u64,
    shard: usize,
    opts: &Opts,
    trace: &Trace,
    stop: &AtomicBool,
) -> ShardOut {
    let mut o = ShardOut::default();
    let chunk = if trace.0.is_some() { 512 } else { 1 << 16 };
    let nchunks = n.div_ceil(chunk);
    let mut c = shard as u64;
    while c < nchunks {
        if stop.load(Ordering::Relaxed) {
            break;
        }
        let (a, b) = (c * chunk, ((c + 1) * chunk).min(n));
        trace.put(idx, &[a, b]);
        let mut nt = 0u64;
        let r = catching(|| {
            for i in a..b {
                match f(i) {
                    Ok(t) => nt += t as u64,
                    Err(_) => return false,
                }
            }
            true
        });
        if matches!(r, Ok(true)) {
            o.evals += b - a;
            o.nontrivial += nt;
        } else {
            for i in a..b {
                o.evals += 1;
                match sweep_one(f, i) {
                    Ok(t) => o.nontrivial += t as u64,
                    Err(e) => {
                        if let Some(s) = e.sig.as_ref().filter(|s| opts.known.contains(s)) {
                            *o.known.entry(s.clone()).or_insert(0) += 1;
                        } else {
                            o.first_fail = Some((i, vec![i], e));
                            stop.store(true, Ordering::Relaxed);
                            return o;
                        }
                    }
                }
            }
        }
        c += SHARDS as u64;
    }
    o
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn trunc(s: String, n: usize) -> String {
    if s.len() <= n {
        s
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    }
}

fn run(property: &str, subs: &[Sub], opts: &Opts) -> i32 {
    let t0 = Instant::now();
    if let Some(d) = opts.hang.clone() {
        std::thread::spawn(move || watchdog(d));
    }
    let mut viols: Vec<Violation> = vec![];
    let (mut evals, mut distinct) = (0u64, 0u64);
    let mut sub_json: Vec<String> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    for (idx, sub) in subs.iter().enumerate() {
        if opts.only.as_deref().is_some_and(|o| o != sub.name) {
            continue;
        }
        if !viols.is_empty() {
            break;
        }
        WATCHED.store(idx, Ordering::Relaxed);
        let ts = Instant::now();
        let total = if opts.tier == "thorough" { sub.thorough } else { sub.quick };
        let n = match sub.kind {
            SubKind::Rand(_) => ((total as f64 * opts.scale) as u64).max(SHARDS as u64),
            SubKind::Sweep(_) => ((total as f64 * opts.scale.min(1.0)) as u64).max(1).min(total),
        };
        let stop = AtomicBool::new(false);
        let outs: Vec<ShardOut> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..SHARDS)
                .map(|shard| {
                    let stop = &stop;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            let trace = Trace(opts.trace.as_ref().map(|d| {
                                let p = format!("{d}/shard{shard}");
                                File::create(p).expect("trace file")
                            }));
                            match sub.kind {
                                SubKind::Rand(f) => {
                                    let per = n / SHARDS as u64 + ((n % SHARDS as u64) > shard as u64) as u64;
                                    run_rand(idx, sub, f, per, shard, opts, &trace)
                                }
                                SubKind::Sweep(f) => run_sweep(idx, f, n, shard, opts, &trace, stop),
                            }
                        })
                        .expect("spawn")
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| std::process::exit(3))).collect()
        });
        let mut labels: BTreeMap<&str, u64> = BTreeMap::new();
        let (mut e, mut nt) = (0, 0);
        let mut hashes: Vec<u64> = vec![];
        let mut best: Option<(u64, Vec<u64>, Fail)> = None;
        let mut taken = 0;
        for o in outs {
            e += o.evals;
            nt += o.nontrivial;
            hashes.extend(o.hashes);
            for (l, c) in o.labels {
                *labels.entry(l).or_insert(0) += c;
            }
            for (s, c) in o.known {
                *known.entry(s).or_insert(0) += c;
            }
            for t in o.samples {
                if taken < 2 && samples.len() < 14 {
                    let d = describe(sub, &t);
                    if !d.is_empty() {
                        samples.push(format!("{}: {}", sub.name, trunc(d, 400)));
                        taken += 1;
                    }
                }
            }
            if let Some(ff) = o.first_fail {
                if best.as_ref().map_or(true, |b| ff.0 < b.0) {
                    best = Some(ff);
                }
            }
        }
        let dis = match sub.kind {
            SubKind::Rand(_) => {
                hashes.sort_unstable();
                hashes.dedup();
                hashes.len() as u64
            }
            SubKind::Sweep(_) => {
                if nt > 0 && samples.len() < 14 {
                    samples.push(format!("{}: every index 0..{}", sub.name, n));
                }
                nt
            }
        };
        evals += e;
        distinct += dis;
        if let Some((_, tape, f0)) = best {
            let (tape, f1) = match sub.kind {
                SubKind::Rand(f) => {
                    let t = shrink(f, tape.clone(), &opts.known);
                    match run_tape(f, &t) {
                        Err(e) => (t, e),
                        Ok(()) => (tape, f0),
                    }
                }
                SubKind::Sweep(_) => (tape, f0),
            };
            let case = trunc(describe(sub, &tape), 4000);
            viols.push(Violation { sub: sub.name, tape, fail: f1, case });
        }
        let lj: Vec<String> = labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        sub_json.push(format!(
            "{{\"name\":{},\"kind\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"exhaustive\":{},\"wall_s\":{:.2},\"labels\":{{{}}}}}",
            jstr(sub.name),
            jstr(match sub.kind { SubKind::Rand(_) => "random", SubKind::Sweep(_) => "enumeration" }),
            e, nt, dis,
            matches!(sub.kind, SubKind::Sweep(_)) && e == total,
            ts.elapsed().as_secs_f64(),
            lj.join(",")
        ));
    }
    let vj: Vec<String> = viols
        .iter()
        .map(|v| {
            format!(
                "{{\"sub\":{},\"tape\":{},\"sig\":{},\"msg\":{},\"case\":{}}}",
                jstr(v.sub),
                jstr(&v.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
                v.fail.sig.as_ref().map_or("null".into(), |s| jstr(s)),
                jstr(&trunc(v.fail.msg.clone(), 2000)),
                jstr(&v.case)
            )
        })
        .collect();
    let kj: Vec<String> = known.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let json = format!(
        "{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.2},\"samples\":[{}],\"subs\":[{}],\"known\":{{{}}},\"violations\":[{}]}}\n",
        jstr(property),
        evals,
        distinct,
        t0.elapsed().as_secs_f64(),
        samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        sub_json.join(","),
        kj.join(","),
        vj.join(",")
    );
    File::create(&opts.out).and_then(|mut f| f.write_all(json.as_bytes())).expect("write result");
    if viols.is_empty() {
        0
    } else {
        10
    }
}

fn parse_tape(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.trim().is_empty()).filter_map(|x| x.trim().parse().ok()).collect()
}

/// Replays one tape.  Exit 0: passes, 10: fails.
fn replay(subs: &[Sub], sub: &str, tape: &str, spill: Option<String>) -> i32 {
    let Some(s) = subs.iter().enumerate().find(|(i, s)| s.name == sub || i.to_string() == sub).map(|x| x.1) else {
        eprintln!("no sub-check {sub}");
        return 3;
    };
    let t = parse_tape(tape);
    let r = match s.kind {
        SubKind::Rand(f) => {
            let t = if t.first() == Some(&u64::MAX) && t.len() == 2 {
                // case seed recorded by tracing
                let mut src = Src::generating(Rng::new(t[1]));
                src.spill = spill.map(|p| File::create(p).expect("spill file"));
                let mut cx = Ctx::default();
                let r = catching(|| f(&mut src, &mut cx));
                let _ = r;
                src.tape
            } else {
                t.clone()
            };
            println!("tape={}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            run_tape(f, &t)
        }
        SubKind::Sweep(f) => {
            let (a, b) = (t.first().copied().unwrap_or(0), t.get(1).copied());
            let mut r = Ok(());
            for i in a..b.unwrap_or(a + 1) {
                if let Err(e) = sweep_one(f, i) {
                    r = Err(e);
                    break;
                }
            }
            r
        }
    };
    match r {
        Ok(()) => {
            println!("PASS");
            0
        }
        Err(e) => {
            println!("case: {}", describe(s, &t));
            println!("FAIL {}", e.msg);
            10
        }
    }
}

pub fn main(property: &str, subs: &[Sub]) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let opts = Opts {
                tier: get("--tier").unwrap_or("quick".into()),
                seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                out: get("--out").unwrap_or("/dev/stdout".into()),
                known: get("--known")
                    .map(|s| s.split('|').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect())
                    .unwrap_or_default(),
                trace: get("--trace"),
                hang: get("--hang"),
                only: get("--only"),
            };
            run(property, subs, &opts)
        }
        Some("replay") => replay(subs, &get("--sub").unwrap_or_default(), &get("--tape").unwrap_or_default(), get("--spill")),
        Some("list") => {
            for (i, s) in subs.iter().enumerate() {
                println!("{i} {}", s.name);
            }
            0
        }
        _ => {
            eprintln!("usage: run|replay|list");
            3
        }
    };
    std::process::exit(code);
}
