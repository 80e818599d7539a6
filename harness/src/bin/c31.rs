//! C31: what a call returns depends on its arguments only, what an object does on its own history and memory only.
use pbt::every::*;
use pbt::*;

/// NaNs are one value.
fn canon<const N: usize>(a: [u32; N]) -> [u32; N] {
    a.map(|v| if f32::from_bits(v).is_nan() { 0x7FC0_0000 } else { v })
}

fn call(p: &Pure, a: &Args) -> Result<[u32; 5], Fail> {
    match catching(|| canon((p.f)(a))) {
        Ok(v) => Ok(v),
        // C30's business
        Err((at, _)) if at.contains("micromath") => Ok([0; 5]),
        Err((at, m)) => fail(format!("{} {a:?} panicked: {m} (at {at})", p.name)),
    }
}

/// Calls that have much in common: the same function or not, some of the arguments changed.
fn calls(s: &mut Src) -> Vec<(usize, Args)> {
    let n = s.usize_in(2, 16);
    let mut v: Vec<(usize, Args)> = vec![];
    for _ in 0..n {
        if !v.is_empty() && s.chance(2, 3) {
            let (i, mut a) = v[s.usize_in(0, v.len() - 1)].clone();
            let i = if s.chance(1, 3) {
                let same: Vec<usize> = (0..CHEAP).filter(|k| PURE[*k].dom == PURE[i].dom).collect();
                same[s.usize_in(0, same.len() - 1)]
            } else {
                i
            };
            let fresh = args(s, &PURE[i], false);
            let which = s.usize_in(0, 7);
            match which {
                0..=3 => a.x[which] = fresh.x[which],
                4 => (a.n, a.k) = (fresh.n, fresh.k),
                5 => a.n = fresh.n,
                6 => a.k = fresh.k,
                _ => a = fresh.clone(),
            }
            if PURE[i].dom == Dom::Nodes {
                a = Args { v: if s.chance(1, 2) { a.v.clone() } else { fresh.v.clone() }, ..a };
                a.x[0] = a.x[0].abs().min(1.0);
            }
            v.push((i, a));
        } else {
            let i = s.usize_in(0, CHEAP - 1);
            let a = args(s, &PURE[i], false);
            v.push((i, a));
        }
    }
    v
}

fn note(cx: &mut Ctx, v: &[(usize, Args)]) {
    for (k, (i, a)) in v.iter().enumerate() {
        cx.note(|| format!("{k}: {} {a:?}", PURE[*i].name));
    }
}

/// Any order, any number of times.
fn order(s: &mut Src, cx: &mut Ctx) -> Res {
    let v = calls(s);
    note(cx, &v);
    let mut first = vec![];
    for (i, a) in &v {
        first.push(call(&PURE[*i], a)?);
    }
    let again: Vec<usize> = (0..2 * v.len()).map(|_| s.usize_in(0, v.len() - 1)).collect();
    cx.note(|| format!("then {again:?}"));
    for k in again {
        let (i, a) = &v[k];
        let r = call(&PURE[*i], a)?;
        ensure!(r == first[k], "call {k} ({} {a:?}) first gave {:x?}, later {r:x?}", PURE[*i].name, first[k]);
    }
    cx.nontrivial_if(v.len() > 3 && v.windows(2).any(|w| w[0].0 == w[1].0));
    Ok(())
}

/// The same call thousands of times, with others in between now and then.
fn repeat(s: &mut Src, cx: &mut Ctx) -> Res {
    let i = s.usize_in(0, CHEAP - 1);
    let a = args(s, &PURE[i], false);
    let n = 1 << s.usize_in(4, 17);
    let others = calls(s);
    let every = if s.chance(1, 2) { n } else { s.usize_in(1, n) };
    cx.note(|| format!("{} {a:?} {n} times, after every {every} one of", PURE[i].name));
    note(cx, &others);
    let first = call(&PURE[i], &a)?;
    if catching(|| (PURE[i].f)(&a)).is_err() {
        return Ok(());
    }
    for k in 1..n {
        if k % every == 0 {
            let (i, a) = &others[(k / every) % others.len()];
            call(&PURE[*i], a)?;
        }
        let r = canon((PURE[i].f)(&a));
        ensure!(r == first, "{} {a:?} gave {first:x?} at first and {r:x?} when asked {k} more times", PURE[i].name);
    }
    cx.nontrivial_if(n > 100);
    Ok(())
}

/// At the same time in several threads.
fn together(s: &mut Src, cx: &mut Ctx) -> Res {
    let v = calls(s);
    note(cx, &v);
    let mut want = vec![];
    for (i, a) in &v {
        want.push(call(&PURE[*i], a)?);
    }
    let starts: Vec<usize> = (0..3).map(|_| s.usize_in(0, v.len() - 1)).collect();
    let (v, want) = (&v, &want);
    let bad: Vec<Result<(), Fail>> = std::thread::scope(|sc| {
        let hs: Vec<_> = starts
            .iter()
            .map(|&st| {
                sc.spawn(move || {
                    for k in 0..40 * v.len() {
                        let k = (st + k * (1 + st % 3)) % v.len();
                        let (i, a) = &v[k];
                        let r = call(&PURE[*i], a)?;
                        ensure!(r == want[k], "call {k} ({} {a:?}) gave {:x?} alone, {r:x?} next to others", PURE[*i].name, want[k]);
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    cx.nontrivial_if(v.len() > 3);
    bad.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
}

struct Life {
    kind: Kind,
    start: Start,
    ops: Vec<Op>,
}

fn life(s: &mut Src, kind: Kind, like: Option<&Life>) -> Life {
    let start = match like {
        Some(l) if s.chance(1, 2) => l.start.clone(),
        _ => start(s, kind, 1),
    };
    let n = s.usize_in(1, 30);
    let mut ops: Vec<Op> = vec![];
    for k in 0..n {
        match like {
            // what the other one does, perhaps with another parameter
            Some(l) if k < l.ops.len() && s.chance(1, 2) => {
                let mut o = l.ops[k];
                let other = op_with(s, kind, o.code, false);
                match s.below(5) {
                    0 => o.x = other.x,
                    1 => o.y = other.y,
                    2 => (o.z, o.w) = (other.z, other.w),
                    3 => o.i = other.i,
                    _ => {}
                }
                ops.push(o);
            }
            _ => ops.push(op(s, kind, false)),
        }
    }
    Life { kind, start, ops }
}

type Record = (Vec<[u32; 4]>, (Vec<u32>, Vec<u32>));

fn alone(l: &Life) -> Result<Record, Fail> {
    let mut t = Thing::new(&l.start);
    let mut out = vec![];
    for o in &l.ops {
        out.push(step(&mut t, l.kind, o)?);
    }
    Ok((out, t.memory()))
}

fn step(t: &mut Thing, kind: Kind, o: &Op) -> Result<[u32; 4], Fail> {
    match catching(|| canon(t.step(o))) {
        Ok(v) => Ok(v),
        Err((at, m)) => fail(format!("{kind:?} {o:?} panicked: {m} (at {at})")),
    }
}

/// Several objects, their operations interleaved, moved about in memory and between threads.
fn objects(s: &mut Src, cx: &mut Ctx) -> Res {
    let k = s.usize_in(2, 4);
    let mut lives: Vec<Life> = vec![];
    for j in 0..k {
        let like = (j > 0 && s.chance(2, 3)).then(|| s.usize_in(0, j - 1));
        let kind = like.map_or_else(|| s.pick(&KINDS), |i| lives[i].kind);
        let l = life(s, kind, like.map(|i| &lives[i]));
        lives.push(l);
    }
    for l in &lives {
        cx.note(|| format!("{:?} {:?} buffers {:?} {:?}: {:?}", l.kind, l.start.p, l.start.a, l.start.b, l.ops));
    }
    let mut want = vec![];
    for l in &lives {
        want.push(alone(l)?);
    }
    // with other neighbours, and buffers aligned otherwise
    let shifts: Vec<usize> = (0..k).map(|_| s.usize_in(0, 16)).collect();
    cx.note(|| format!("shifts {shifts:?}"));
    let mut things: Vec<Box<Thing>> = lives.iter().zip(&shifts).map(|(l, n)| Box::new(Thing::new_at(&l.start, *n))).collect();
    let mut outs: Vec<Vec<[u32; 4]>> = vec![vec![]; k];
    let mut order = vec![];
    let (mut switches, mut last) = (0, k);
    loop {
        let open: Vec<usize> = (0..k).filter(|j| outs[*j].len() < lives[*j].ops.len()).collect();
        if open.is_empty() {
            break;
        }
        let j = open[s.usize_in(0, open.len() - 1)];
        switches += (j != last) as usize;
        last = j;
        order.push(j);
        if s.chance(1, 8) {
            // elsewhere in memory
            let t = std::mem::replace(&mut things[j], Box::new(Thing::new(&lives[j].start)));
            things[j] = Box::new(*t);
            cx.label("moved");
        }
        if s.chance(1, 8) {
            // a call that has nothing to do with it
            let p = &PURE[s.usize_in(0, CHEAP - 1)];
            let a = args(s, p, false);
            call(p, &a)?;
        }
        let o = lives[j].ops[outs[j].len()];
        let kind = lives[j].kind;
        let r = if s.chance(1, 400) {
            cx.label("other thread");
            let t = &mut things[j];
            std::thread::scope(|sc| sc.spawn(|| step(t, kind, &o)).join().unwrap())?
        } else {
            step(&mut things[j], kind, &o)?
        };
        outs[j].push(r);
    }
    cx.note(|| format!("order {order:?}"));
    for j in 0..k {
        for i in 0..outs[j].len() {
            ensure!(
                outs[j][i] == want[j].0[i],
                "object {j} ({:?}), operation {i} {:?}: {:x?} among others, {:x?} alone",
                lives[j].kind, lives[j].ops[i], outs[j][i], want[j].0[i]
            );
        }
        ensure!(things[j].memory() == want[j].1, "object {j} ({:?}): its buffers ended up differently among others", lives[j].kind);
    }
    cx.nontrivial_if(switches > 3);
    Ok(())
}

/// An operation or call interrupted, after any of its instructions, by another one.
fn interrupts(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut lives: Vec<Life> = vec![];
    for j in 0..2 {
        let like = (j > 0 && s.chance(3, 4)).then_some(0);
        let kind = like.map_or_else(|| s.pick(&KINDS), |_| lives[0].kind);
        let l = life(s, kind, like.map(|i| &lives[i]));
        lives.push(l);
    }
    // the last operation of each meets the other's
    let code = s.below(CODES[lives[0].kind as usize] as u64) as u8;
    for j in 0..2 {
        let kind = lives[j].kind;
        let c = if kind == lives[0].kind && s.chance(3, 4) { code } else { s.below(CODES[kind as usize] as u64) as u8 };
        let o = op_with(s, kind, c, false);
        lives[j].ops.push(o);
    }
    for l in &lives {
        cx.note(|| format!("{:?} {:?} buffers {:?} {:?}: {:?}", l.kind, l.start.p, l.start.a, l.start.b, l.ops));
    }
    let want = [alone(&lives[0])?, alone(&lives[1])?];
    let mut t = [Thing::new(&lives[0].start), Thing::new(&lives[1].start)];
    for j in 0..2 {
        let n = lives[j].ops.len() - 1;
        for o in &lives[j].ops[..n] {
            step(&mut t[j], lives[j].kind, o)?;
        }
    }
    let far = s.chance(1, 4);
    let at = s.below(if far { 400 } else { 90 }) + 5;
    cx.note(|| format!("the second's last operation after {at} instructions of the first's"));
    let (mut r0, mut r1) = (None, None);
    let hit = {
        let (o0, o1) = (*lives[0].ops.last().unwrap(), *lives[1].ops.last().unwrap());
        let [t0, t1] = &mut t;
        pbt::watch::interrupted(
            at,
            &mut || r0 = Some(catching(|| t0.step(&o0))),
            // both have gone well alone: a panic here ends the process, which is reported too
            &mut || r1 = Some(t1.step(&o1)),
        )
    };
    if !hit {
        r1 = Some(t[1].step(lives[1].ops.last().unwrap()));
    }
    let r0 = match r0.unwrap() {
        Ok(v) => canon(v),
        Err((p, m)) => return fail(format!("{:?} panicked when interrupted: {m} (at {p})", lives[0].kind)),
    };
    for (j, r) in [(0, r0), (1, canon(r1.unwrap()))] {
        let w = want[j].0.last().unwrap();
        ensure!(r == *w, "{} operation: {r:x?}, alone {w:x?}", ["the interrupted", "the interrupting"][j]);
        ensure!(t[j].memory() == want[j].1, "{} operation left other samples in its buffers", ["the interrupted", "the interrupting"][j]);
    }
    cx.nontrivial_if(hit);
    Ok(())
}

/// The same for functions.
fn interrupted_calls(s: &mut Src, cx: &mut Ctx) -> Res {
    let v = loop {
        let v = calls(s);
        if v.len() >= 2 {
            break v;
        }
    };
    let (a, b) = (&v[v.len() - 2], &v[v.len() - 1]);
    cx.note(|| format!("{} {:?} and {} {:?}", PURE[a.0].name, a.1, PURE[b.0].name, b.1));
    let want = [call(&PURE[a.0], &a.1)?, call(&PURE[b.0], &b.1)?];
    let far = s.chance(1, 4);
    let at = s.below(if far { 400 } else { 90 }) + 5;
    cx.note(|| format!("the second after {at} instructions of the first"));
    let (mut r0, mut r1) = (None, None);
    let hit = pbt::watch::interrupted(
        at,
        &mut || r0 = Some(catching(|| (PURE[a.0].f)(&a.1))),
        &mut || r1 = Some((PURE[b.0].f)(&b.1)),
    );
    let Ok(r0) = r0.unwrap() else {
        return fail(format!("{} panicked when interrupted", PURE[a.0].name));
    };
    ensure!(canon(r0) == want[0], "{}: {r0:x?} when interrupted, alone {:x?}", PURE[a.0].name, want[0]);
    if let Some(r1) = r1 {
        ensure!(canon(r1) == want[1], "{}: {r1:x?} in an interrupt, alone {:x?}", PURE[b.0].name, want[1]);
    }
    cx.nontrivial_if(hit);
    Ok(())
}

/// Histories in several threads at once.
fn crowds(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut lives: Vec<Life> = vec![];
    for j in 0..3 {
        let like = (j > 0 && s.chance(3, 4)).then_some(0);
        let kind = like.map_or_else(|| s.pick(&KINDS), |_| lives[0].kind);
        let l = life(s, kind, like.map(|i| &lives[i]));
        cx.note(|| format!("{:?} {:?} buffers {:?} {:?}: {:?}", l.kind, l.start.p, l.start.a, l.start.b, l.ops));
        lives.push(l);
    }
    let want: Vec<Record> = lives.iter().map(alone).collect::<Result<_, _>>()?;
    let r: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = lives
            .iter()
            .zip(&want)
            .map(|(l, w)| {
                sc.spawn(move || {
                    for _ in 0..20 {
                        let r = alone(l)?;
                        ensure!(r == *w, "{:?}: {r:x?} next to other threads, {w:x?} alone", l.kind);
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    cx.nontrivial_if(lives.iter().all(|l| l.ops.len() > 2));
    r.into_iter().collect::<Result<Vec<_>, _>>().map(|_| ())
}

/// A copy goes on like the original would, and leaves the original's own state alone.
fn copies(s: &mut Src, cx: &mut Ctx) -> Res {
    let kind = s.pick(&[Kind::Comb, Kind::AllPass, Kind::Delay, Kind::View]);
    let before = life(s, kind, None);
    let after = life(s, kind, None);
    let other = life(s, kind, None);
    for l in [&before, &after, &other] {
        cx.note(|| format!("{:?} {:?} buffers {:?} {:?}: {:?}", l.kind, l.start.p, l.start.a, l.start.b, l.ops));
    }
    let mut t = Thing::new(&before.start);
    for o in &before.ops {
        step(&mut t, kind, o)?;
    }
    let m = t.memory();
    // a holder for the copy; exchanged buffers are those of the holder, which has the same content
    let mut c = Thing::new(&before.start);
    let clone = s.chance(1, 2);
    cx.note(|| format!("{}", if clone { "cloned" } else { "copied" }));
    t.copy_into(&mut c, clone);
    // buffers of the holder are not used: attach only what both have
    let attach = match kind {
        Kind::Comb => 3,
        Kind::AllPass => 1,
        Kind::Delay => 6,
        _ => 255,
    };
    let run = |t: &mut Thing, l: &Life| -> Result<Vec<[u32; 4]>, Fail> {
        l.ops.iter().filter(|o| o.code != attach).map(|o| step(t, kind, o)).collect()
    };
    // the copy goes its own way first
    run(&mut c, &other)?;
    t.restore(&m);
    let mut c2 = Thing::new(&before.start);
    t.copy_into(&mut c2, clone);
    let one = run(&mut c2, &after)?;
    let m1 = t.memory();
    t.restore(&m);
    let two = run(&mut t, &after)?;
    let m2 = t.memory();
    ensure!(one == two, "{kind:?}: a copy answered {one:x?}, the original {two:x?}");
    ensure!(m1 == m2, "{kind:?}: a copy left other samples behind than the original");
    cx.nontrivial_if(before.ops.len() > 2 && after.ops.len() > 2);
    cx.label(["comb", "all-pass", "delay", "view"][match kind {
        Kind::Comb => 0,
        Kind::AllPass => 1,
        Kind::Delay => 2,
        _ => 3,
    }]);
    Ok(())
}

fn main() {
    pbt::main(
        "C31",
        &[
            rand("order", 1_000_000, 20_000_000, order),
            rand("repeat", 20_000, 400_000, repeat),
            rand("together", 4_000, 100_000, together),
            rand("objects", 500_000, 10_000_000, objects),
            rand("crowds", 4_000, 100_000, crowds),
            rand("interrupts", 30_000, 500_000, interrupts),
            rand("interrupted calls", 30_000, 500_000, interrupted_calls),
            rand("copies", 500_000, 10_000_000, copies),
        ],
    );
}
