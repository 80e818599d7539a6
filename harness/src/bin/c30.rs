//! C30: every call comes to an end after a bounded amount of work, without panicking, whatever its arguments.
use pbt::every::*;
use pbt::watch::instructions;
use pbt::*;

/// A panic, as a failure.  Listed as a known finding: in builds with debug assertions the maths dependency panics
/// where an exponential exceeds the range of f32 by less than a factor of two.
fn panicked(what: &str, detail: &str, x: f32, at: &str, m: &str) -> Fail {
    let band = match what {
        "sinh" | "cosh" => (88.7..89.5).contains(&x.abs()),
        "to_volt_ratio" => (770.5..777.0).contains(&x),
        _ => false,
    };
    let sig = (band && at.contains("micromath")).then(|| format!("{what}:exponent-assert"));
    Fail { msg: format!("{what}{detail} panicked: {m} (at {at})"), sig }
}

/// Instructions of a call, or the panic it ended in.
fn cost(what: &str, detail: &str, x: f32, limit: u64, mut f: impl FnMut()) -> Result<u64, Fail> {
    let mut r = Ok(());
    let n = instructions(limit, &mut || r = catching(&mut f));
    match r {
        Ok(()) => Ok(n),
        Err((at, m)) => Err(panicked(what, detail, x, &at, &m)),
    }
}

const NAMES: [&str; 9] = ["osc", "wavetable", "phase", "envelope", "biquad", "comb", "all-pass", "delay", "view"];

/// What a call may cost, given what the same kind of call costs with ordinary arguments.
fn bound(ordinary: u64) -> u64 {
    20 * ordinary + 3_000
}

fn function(s: &mut Src, cx: &mut Ctx, p: &Pure, most: u64) -> Res {
    let a = args(s, p, true);
    let t = tame(p, &a);
    cx.note(|| format!("{}: {a:?}", p.name));
    let ordinary = cost(p.name, " with ordinary arguments", t.x[0], most, || {
        std::hint::black_box((p.f)(&t));
    })?;
    let limit = bound(ordinary);
    let n = cost(p.name, "", a.x[0], limit, || {
        std::hint::black_box((p.f)(&a));
    })?;
    cx.label(p.name);
    cx.nontrivial_if(a.x.iter().any(|x| x.abs() > 100.0 || x.is_nan()));
    OVERRUN.fetch_or(n > limit, std::sync::atomic::Ordering::Relaxed);
    ensure!(n <= limit, "{}: more than {limit} instructions, {ordinary} for ordinary arguments", p.name);
    Ok(())
}

fn functions(s: &mut Src, cx: &mut Ctx) -> Res {
    let p = &PURE[s.usize_in(0, CHEAP - 1)];
    function(s, cx, p, 1_000_000)
}
fn integral(s: &mut Src, cx: &mut Ctx) -> Res {
    function(s, cx, &PURE[CHEAP], 10_000_000)
}

/// A call did not come to an end in time: do not try it uncounted.
static OVERRUN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// The same without counting, many more arguments.
fn total(s: &mut Src, cx: &mut Ctx) -> Res {
    if OVERRUN.load(std::sync::atomic::Ordering::Relaxed) {
        return Ok(());
    }
    let p = &PURE[s.usize_in(0, CHEAP - 1)];
    let a = args(s, p, true);
    cx.note(|| format!("{}: {a:?}", p.name));
    cx.nontrivial_if(a.x.iter().any(|x| x.abs() > 100.0 || x.is_nan()));
    match catching(|| {
        std::hint::black_box((p.f)(&a));
    }) {
        Ok(()) => Ok(()),
        Err((at, m)) => Err(panicked(p.name, "", a.x[0], &at, &m)),
    }
}

/// Numbers people write down and numbers at which the representation changes.
fn special(i: u64) -> f32 {
    const V: [f32; 88] = [
        0.0, 1e-45, 1e-40, 1.1754942e-38, 1.1754944e-38, 1e-30, 1e-20, 1e-12, 1e-10, 1e-8, 1.1920929e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.005, 0.01, 0.02,
        0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 1.0 / 3.0, 0.4, 0.5, 0.6, 0.7, 0.70710677, 0.75, 0.8, 0.9, 0.95, 0.99, 0.99999994, 1.0, 1.0000001, 1.2,
        1.4142135, 1.5, 1.5707964, 2.0, 2.5, 3.0, 3.1415927, 4.0, 4.712389, 5.0, 6.0, 6.2831855, 7.0, 8.0, 9.0, 10.0, 12.0, 16.0, 20.0, 32.0, 64.0, 89.0,
        100.0, 128.0, 255.0, 256.0, 440.0, 773.0, 1000.0, 1024.0, 10_000.0, 22_050.0, 24_000.0, 32_767.0, 32_768.0, 44_100.0, 48_000.0, 65_535.0,
        65_536.0, 96_000.0, 1e6, 16_777_216.0, 2147483648.0, 4294967296.0, 1e10, 1e20, 1e30, f32::MAX, f32::INFINITY,
    ];
    match i % 178 {
        176 => f32::NAN,
        177 => f32::from_bits(0xFFC0_0001),
        i => V[i as usize / 2] * if i % 2 == 0 { 1.0 } else { -1.0 },
    }
}

/// Every function at every pair of them.
fn specials(i: u64) -> Result<bool, Fail> {
    let p = &PURE[(i % PURE.len() as u64) as usize];
    let i = i / PURE.len() as u64;
    let (u, v) = (special(i), special(i / 178));
    if OVERRUN.load(std::sync::atomic::Ordering::Relaxed) || (p.name == PURE[CHEAP].name && i >= 178) {
        return Ok(false);
    }
    let h = mix(i);
    let (w, z) = (special(h % 178), special((h >> 20) % 178));
    // which of the arguments form the pair
    let x = match i / (178 * 178) {
        0 => [u, v, w, z],
        1 => [w, u, v, z],
        2 => [u, w, v, z],
        3 => [w, z, u, v],
        4 => [u, w, z, v],
        _ => [w, u, z, v],
    };
    let a = match p.dom {
        Dom::Nodes => Args { x: [(h >> 32) as f32 / 4294967296.0 * 3.0, x[0], x[1], x[2]], n: 0, k: 0, v: x.to_vec() },
        _ => Args { x, n: (h >> 40) as u8, k: h as u32, v: vec![] },
    };
    match catching(|| {
        std::hint::black_box((p.f)(&a));
    }) {
        Ok(()) => Ok(u.is_finite() && v.is_finite()),
        Err((at, m)) => Err(panicked(p.name, &format!(" with {:?}", a.x), a.x[0], &at, &m)),
    }
}

/// Indices at which a representation or a wrap changes.
fn special_index(i: u64, len: usize) -> isize {
    let b = (i / 8 % 64) as u32;
    match i % 8 {
        0 => len as isize + b as isize - 32,
        1 => -(len as isize) + b as isize - 32,
        2 => (1u64 << b) as isize,
        3 => (1u64 << b).wrapping_sub(1) as isize,
        4 => (1u64 << b).wrapping_neg() as isize,
        5 => (1u64 << b).wrapping_add(1) as isize,
        6 => (len as isize).wrapping_mul(1isize << b),
        _ => [0, 10, 100, 101, 1_000, 10_000, 100_000, 1_000_000, isize::MAX, isize::MIN, -10, -100, -1_000, 3, 48_000, 44_100][(b % 16) as usize],
    }
}

/// Every operation of every object at such values, in the middle of ordinary use.
fn special_ops(n: u64) -> Result<bool, Fail> {
    const OPS: u64 = 62;
    let (mut kind, mut code) = (0, n % OPS);
    while code >= CODES[kind] as u64 {
        code -= CODES[kind] as u64;
        kind += 1;
    }
    if OVERRUN.load(std::sync::atomic::Ordering::Relaxed) {
        return Ok(false);
    }
    let (kind, code) = (KINDS[kind], code as u8);
    let j = n / OPS;
    let h = mix(n);
    let len = [1, 2, 3, 4, 5, 8, 16, 17, 100, 101, 64, 128, 37, 256, 1000, 1024][(h >> 48) as usize % 16];
    let st = Start { kind, p: [440.0, 48_000.0, 0.0001, 0.0001, 0.5, 1.0], a: vec![0.5; len], b: vec![0.25; len + (h >> 60) as usize / 2] };
    let (u, v) = (special(j), special(h % 178));
    let mut o = Op { code, x: v, y: v, z: special((h >> 8) % 178), w: v, i: special_index(h >> 16, len) };
    match j / 178 % 4 {
        0 => o.x = u,
        1 => o.y = u,
        2 => o.z = u,
        _ => o.w = u,
    }
    let base = Op { code: 0, x: 0.5, y: 0.5, z: 48_000.0, w: 0.5, i: 3 };
    let mut around = [base; 2];
    match kind {
        Kind::Envelope => {
            // the documented rates
            if !(1.0..=1.0e6).contains(&o.z) {
                o.z = 48_000.0;
            }
            around[0].code = 1;
            around[1].code = 2;
        }
        Kind::Delay | Kind::View => {
            if !(o.y.abs() < 1.0e9) {
                o.y = (h >> 30) as u32 as f32 / 8.0;
            }
        }
        _ => {}
    }
    let mut t = Thing::new(&st);
    let r = catching(|| {
        t.step(&around[0]);
        t.step(&base);
        t.step(&o);
        for _ in 0..4 {
            t.step(&base);
        }
        t.step(&around[1]);
        t.step(&base);
    });
    match r {
        Ok(()) => Ok(u.is_finite()),
        Err((at, m)) => Err(panicked(NAMES[kind as usize], &format!(" {o:?}, buffers of {len}"), 0.0, &at, &m)),
    }
}

fn prepare(s: &mut Src) -> (Kind, Start, Start) {
    let kind = s.pick(&KINDS);
    let mut st = start(s, kind, 1);
    if s.chance(1, 10) {
        st.b = vec![s.pick(&[0.25, 0.0]); pbt::signal::big_length(s)];
        if s.chance(1, 2) {
            st.a = st.b.clone();
        }
    }
    let mut plain = st.clone();
    plain.p = [440.0, 48_000.0, 0.01, 0.01, 0.5, 1.0];
    plain.a = vec![0.5; 8];
    plain.b = vec![0.5; 8];
    (kind, st, plain)
}

/// After any history with extreme parameters each operation costs as much as on an ordinary object.
fn objects(s: &mut Src, cx: &mut Ctx) -> Res {
    let (kind, st, plain) = prepare(s);
    cx.note(|| format!("{kind:?}, parameters {:?}, buffers of {} and {}", st.p, st.a.len(), st.b.len()));
    let mut t = Thing::new(&st);
    for _ in 0..s.usize_in(0, 12) {
        let o = op(s, kind, true);
        cx.note(|| format!("{o:?}"));
        if let Err((at, m)) = catching(|| t.step(&o)) {
            return Err(panicked(NAMES[kind as usize], &format!(" {o:?}"), 0.0, &at, &m));
        }
    }
    let code = s.below(CODES[kind as usize] as u64) as u8;
    let o = op_with(s, kind, code, true);
    let mut u = Thing::new(&plain);
    let ordinary_op = Op { code, x: 0.5, y: 0.5, z: if kind == Kind::View { o.z } else { 48_000.0 }, w: 0.5, i: 3 };
    if kind == Kind::Envelope {
        // the stage with the power curve
        u.step(&Op { code: 1, ..ordinary_op });
    }
    let name = NAMES[kind as usize];
    let ordinary = cost(name, " with ordinary arguments", 0.0, 1_000_000, || {
        std::hint::black_box(u.step(&ordinary_op));
    })?;
    let limit = bound(ordinary);
    cx.note(|| format!("measured: {o:?}"));
    let n = cost(name, &format!(" {o:?}"), 0.0, limit, || {
        std::hint::black_box(t.step(&o));
    })?;
    cx.label(name);
    cx.nontrivial();
    OVERRUN.fetch_or(n > limit, std::sync::atomic::Ordering::Relaxed);
    ensure!(n <= limit, "{kind:?} operation {code}: more than {limit} instructions, {ordinary} in the ordinary case");
    Ok(())
}

/// The cost of an operation has nothing to do with the length of the buffer, least of all when nothing is going on.
fn lengths(s: &mut Src, cx: &mut Ctx) -> Res {
    let kind = s.pick(&[Kind::Comb, Kind::AllPass, Kind::Delay, Kind::View, Kind::Wavetable]);
    let level = s.pick(&[0.0, 0.0, 0.5, 1.0, 1.0e-5, 1.0e-25, 1.0e-41]);
    let mut short = start(s, kind, 1);
    short.p = [440.0, 48_000.0, 0.01, 0.01, 0.5, 1.0];
    let mut long = short.clone();
    (short.a, short.b) = (vec![level; 8], vec![level; 8]);
    let n = s.usize_in(30_000, 200_000);
    (long.a, long.b) = (vec![level; n], vec![level; n]);
    let (mut t, mut u) = (Thing::new(&long), Thing::new(&short));
    cx.note(|| format!("{kind:?}, buffers of {n} samples {level}"));
    for _ in 0..=s.usize_in(0, 6) {
        let code = s.below(CODES[kind as usize] as u64) as u8;
        let mut o = op_with(s, kind, code, false);
        if s.chance(1, 2) {
            o.x = if s.chance(1, 2) { 0.0 } else { level };
        }
        cx.note(|| format!("{o:?}"));
        let name = NAMES[kind as usize];
        let most = 1_000_000;
        let ordinary = cost(name, " on a short buffer", 0.0, most, || {
            std::hint::black_box(u.step(&o));
        })?;
        let limit = bound(ordinary);
        let n = cost(name, &format!(" {o:?}"), 0.0, limit, || {
            std::hint::black_box(t.step(&o));
        })?;
        OVERRUN.fetch_or(n > limit, std::sync::atomic::Ordering::Relaxed);
        ensure!(n <= limit, "{kind:?} operation {code}: more than {limit} instructions, {ordinary} on a short buffer");
    }
    cx.label(NAMES[kind as usize]);
    cx.nontrivial();
    Ok(())
}

/// No operation of a long history is dearer than the others (housekeeping at the end of the buffer, every so many
/// samples, after so much silence).  Where to count is found by the clock, what is compared are counted instructions.
fn runs(s: &mut Src, cx: &mut Ctx) -> Res {
    let kind = s.pick(&KINDS);
    let mut st = start(s, kind, 1);
    st.p = [s.f32_log(1.0, 5_000.0), 48_000.0, s.f32_in(0.0, 0.3), s.f32_in(0.0, 0.3), 0.5, s.f32_log(0.5, 2.0)];
    let buffered = !matches!(kind, Kind::Osc | Kind::Phase | Kind::Envelope | Kind::Biquad);
    let len = if buffered { s.f32_log(1_000.0, 120_000.0) as usize } else { 8 };
    let level = s.pick(&[0.0, 0.25, 1.0e-4, 1.0e-25, 1.0e-41]);
    (st.a, st.b) = (vec![level; len], vec![level; len]);
    let n = if buffered { (2 * len + 500).max(70_000) } else { s.usize_in(70_000, 140_000) };
    let silent_from = if s.chance(1, 3) { 0 } else { s.usize_in(0, n) };
    let mut others: Vec<(usize, Op)> = (0..s.usize_in(0, 6)).map(|_| (s.usize_in(0, n - 1), op(s, kind, false))).collect();
    others.sort_by_key(|o| o.0);
    if kind == Kind::Envelope {
        others.insert(0, (0, Op { code: 1, x: 0.0, y: 0.0, z: 0.0, w: 0.0, i: 0 }));
    }
    cx.note(|| format!("{kind:?} {:?}, buffers of {len} samples {level}, {n} samples, silent from {silent_from}, {others:?}", st.p));
    let tick = |k: usize| Op {
        code: 0,
        x: if k < silent_from { ((k * 7919) % 1000) as f32 / 1000.0 - 0.5 } else { 0.0 },
        y: 0.0,
        z: 48_000.0,
        w: 0.0,
        i: if kind == Kind::View { (k % len) as isize } else { 0 },
    };
    let before = |t: &mut Thing, k: usize| {
        let from = others.partition_point(|o| o.0 < k);
        for (_, o) in others[from..].iter().take_while(|o| o.0 == k) {
            t.step(o);
        }
    };
    // the slowest ones: slow in each of two runs
    let mut time = vec![u64::MAX; n];
    for _ in 0..2 {
        let mut t = Thing::new(&st);
        for k in 0..n {
            before(&mut t, k);
            let o = tick(k);
            let a = unsafe { core::arch::x86_64::_rdtsc() };
            std::hint::black_box(t.step(&o));
            time[k] = time[k].min(unsafe { core::arch::x86_64::_rdtsc() } - a);
        }
    }
    let mut order: Vec<usize> = (0..n).collect();
    order.select_nth_unstable_by_key(4, |k| u64::MAX - time[*k]);
    let mut slow = order[..4].to_vec();
    slow.sort_unstable();
    let name = NAMES[kind as usize];
    let mut t = Thing::new(&st);
    let mut ordinary = 0;
    for k in 0..=slow[3] {
        before(&mut t, k);
        let o = tick(k);
        if k == 7 {
            ordinary = cost(name, " at first", 0.0, 1_000_000, || {
                std::hint::black_box(t.step(&o));
            })?;
        } else if k > 7 && slow.contains(&k) {
            let limit = bound(ordinary);
            let cost = cost(name, &format!(" sample {k}"), 0.0, limit, || {
                std::hint::black_box(t.step(&o));
            })?;
            ensure!(cost <= limit, "{kind:?} sample {k}: more than {limit} instructions, {ordinary} for an earlier one");
        } else {
            t.step(&o);
        }
    }
    cx.label(name);
    cx.nontrivial();
    Ok(())
}

/// Long histories, not counted.
fn histories(s: &mut Src, cx: &mut Ctx) -> Res {
    if OVERRUN.load(std::sync::atomic::Ordering::Relaxed) {
        return Ok(());
    }
    let (kind, st, _) = prepare(s);
    cx.note(|| format!("{kind:?}, parameters {:?}, buffers of {} and {}", st.p, st.a.len(), st.b.len()));
    let mut t = Thing::new(&st);
    let n = s.usize_in(1, 60);
    let mut ticks = 0;
    for _ in 0..n {
        let o = op(s, kind, true);
        cx.note(|| format!("{o:?}"));
        ticks += (o.code == 0) as usize;
        if let Err((at, m)) = catching(|| t.step(&o)) {
            return Err(panicked(NAMES[kind as usize], &format!(" {o:?}"), 0.0, &at, &m));
        }
    }
    cx.nontrivial_if(ticks > 0 && ticks < n);
    Ok(())
}

/// Counting itself.
fn instrument(n: u64) -> Result<bool, Fail> {
    let x = instructions(1 << 20, &mut || {
        for k in 0..n {
            std::hint::black_box(k);
        }
    });
    let mut steps = 0u64;
    let y = instructions(1_000 + n, &mut || loop {
        steps += 1;
        std::hint::black_box(&mut steps);
    });
    if y != 1_001 + n || steps < 50 || x < 2 * n || x > 12 * n + 300 {
        panic!("instruction counting does not work here: {x} for a loop of {n}");
    }
    Ok(false)
}

fn main() {
    pbt::main(
        "C30",
        &[
            sweep("instrument", 50, 50, instrument),
            rand("functions", 6_000, 200_000, functions),
            rand("integral", 4, 50, integral),
            rand("objects", 8_000, 500_000, objects),
            rand("lengths", 1_600, 200_000, lengths),
            rand("runs", 800, 40_000, runs),
            sweep("specials", 6 * 178 * 178 * PURE.len() as u64, 6 * 178 * 178 * PURE.len() as u64, specials),
            sweep("special_ops", 62 * 178 * 4 * 40, 62 * 178 * 4 * 400, special_ops),
            rand("total", 40_000_000, 1_000_000_000, total),
            rand("histories", 1_500_000, 20_000_000, histories),
        ],
    );
}
