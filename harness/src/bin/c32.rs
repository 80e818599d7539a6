//! C32: only the latest setting of each parameter counts; asking changes nothing.
use pbt::every::*;
use pbt::*;

/// NaNs are one value.
fn canon(a: [u32; 4]) -> [u32; 4] {
    a.map(|v| if f32::from_bits(v).is_nan() { 0x7FC0_0000 } else { v })
}
fn step(t: &mut Thing, kind: Kind, o: &Op) -> Result<[u32; 4], Fail> {
    match catching(|| canon(t.step(o))) {
        Ok(v) => Ok(v),
        Err((at, m)) => fail(format!("{kind:?} {o:?} panicked: {m} (at {at})")),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Role {
    /// sets the parameter of that number
    Sets(u8),
    /// attaches a buffer
    Attaches,
    /// only answers
    Asks,
    Acts,
}

fn role(kind: Kind, code: u8) -> Role {
    use Role::*;
    match (kind, code) {
        (Kind::Osc, 1..=4) | (Kind::Wavetable, 1..=3) => Sets(code),
        (Kind::Phase, 2 | 5) => Sets(2),
        (Kind::Phase, 3 | 4) => Sets(code),
        (Kind::Envelope, 4..=9) => Sets(code),
        (Kind::Envelope, 10) => Asks,
        (Kind::Biquad, 1..) => Sets(1),
        (Kind::Comb, 1 | 2) => Sets(code),
        (Kind::Comb, 3) | (Kind::AllPass, 1) | (Kind::Delay, 6) => Attaches,
        (Kind::Comb, 4) | (Kind::AllPass, 2) | (Kind::Delay, 1..=4 | 7) | (Kind::View, 1..) => Asks,
        _ => Acts,
    }
}

/// The sample rate an envelope's times are converted with.
const ENVELOPE_SR: u8 = 9;

/// The operation that sets what is in force at the beginning.
fn initial(st: &Start, code: u8) -> Option<Op> {
    let o = Op { code, x: 0.0, y: 0.0, z: st.p[1], w: 0.0, i: 0 };
    Some(match (st.kind, code) {
        (Kind::Osc | Kind::Wavetable, 1) | (Kind::Phase, 2 | 5) => Op { x: st.p[0], ..o },
        (Kind::Osc | Kind::Wavetable, 2) | (Kind::Phase, 4) => o,
        (Kind::Osc, 3 | 4) | (Kind::Wavetable, 3) | (Kind::Phase, 3) => o,
        (Kind::Envelope, 4 | 6) => Op { x: st.p[2], ..o },
        (Kind::Envelope, 5) => Op { x: st.p[3], ..o },
        (Kind::Envelope, 7) => Op { y: st.p[4], ..o },
        (Kind::Envelope, 8) => Op { w: st.p[5], ..o },
        (Kind::Envelope, 9) => o,
        (Kind::Comb, 1) => Op { y: 0.5, ..o },
        (Kind::Comb, 2) => Op { w: 0.5, ..o },
        (Kind::Comb, 3) | (Kind::AllPass, 1) | (Kind::Delay, 6) => o,
        _ => return None,
    })
}

/// `Some(index in the original history)` for what was there before.
type Marked = Vec<(Option<usize>, Op)>;

/// Changes a history without changing what it means.
fn change(s: &mut Src, st: &Start, h: &mut Marked, want: &[[u32; 4]], wild: bool) -> &'static str {
    let kind = st.kind;
    let at = s.usize_in(0, h.len());
    match s.below(5) {
        0 => {
            // set to what it is set to already
            let code = s.below(CODES[kind as usize] as u64) as u8;
            let r = role(kind, code);
            if !matches!(r, Role::Sets(_) | Role::Attaches) {
                return "";
            }
            let last = h[..at].iter().rposition(|e| role(kind, e.1.code) == r && valid(kind, e, want));
            let o = match last {
                Some(k) => {
                    // the times of an envelope are converted when they are set
                    let sr_since = h[k..at].iter().any(|(_, o)| role(kind, o.code) == Role::Sets(ENVELOPE_SR));
                    if kind == Kind::Envelope && (4..=6).contains(&code) && sr_since {
                        return "";
                    }
                    h[k].1
                }
                None => {
                    let sr_since = h[..at].iter().any(|(_, o)| role(kind, o.code) == Role::Sets(ENVELOPE_SR));
                    if kind == Kind::Envelope && (4..=6).contains(&code) && sr_since {
                        return "";
                    }
                    match initial(st, code) {
                        Some(o) => o,
                        None => return "",
                    }
                }
            };
            h.insert(at, (None, o));
            if matches!(r, Role::Attaches) {
                "attached again"
            } else {
                "set again"
            }
        }
        1 => {
            // something that is superseded at once
            let Some(e) = h.get(at) else { return "" };
            let Role::Sets(n) = role(kind, e.1.code) else { return "" };
            if !valid(kind, e, want) {
                return "";
            }
            let codes: Vec<u8> = (0..CODES[kind as usize]).filter(|c| role(kind, *c) == Role::Sets(n)).collect();
            let c = codes[s.usize_in(0, codes.len() - 1)];
            let mut p = op_with(s, kind, c, wild);
            if s.chance(1, 3) {
                // something similar
                p = Op { code: c, ..h[at].1 };
                for v in [&mut p.x, &mut p.y, &mut p.z, &mut p.w] {
                    if s.chance(1, 2) {
                        let e = s.f32_log(1e-6, 0.1);
                        *v *= if s.chance(1, 2) { 1.0 + e } else { 1.0 - e };
                    }
                }
            }
            h.insert(at, (None, p));
            "superseded"
        }
        2 => {
            // another order of settings
            if at + 1 >= h.len() {
                return "";
            }
            let (a, b) = (role(kind, h[at].1.code), role(kind, h[at + 1].1.code));
            let sr = |r: Role| kind == Kind::Envelope && r == Role::Sets(ENVELOPE_SR);
            match (a, b) {
                (Role::Sets(x), Role::Sets(y)) if x != y && !sr(a) && !sr(b) => {}
                (Role::Sets(_), Role::Attaches) | (Role::Attaches, Role::Sets(_)) => {}
                (Role::Sets(_), Role::Asks) | (Role::Asks, Role::Sets(_)) => {}
                _ => return "",
            }
            h.swap(at, at + 1);
            "reordered"
        }
        3 => {
            let asks: Vec<u8> = (0..CODES[kind as usize]).filter(|c| role(kind, *c) == Role::Asks).collect();
            if asks.is_empty() {
                return "";
            }
            let c = asks[s.usize_in(0, asks.len() - 1)];
            let o = op_with(s, kind, c, wild);
            h.insert(at, (None, o));
            "asked"
        }
        _ => {
            // an invalid setting, rejected
            if kind != Kind::Phase {
                return "";
            }
            let mut o = op_with(s, kind, 5, false);
            o.x = if s.chance(1, 2) { -o.x.abs() } else { 0.0 };
            h.insert(at, (None, o));
            "rejected"
        }
    }
}

/// Whether a setting was accepted (those that were inserted before: is acceptable).
fn valid(kind: Kind, (k, o): &(Option<usize>, Op), want: &[[u32; 4]]) -> bool {
    kind != Kind::Phase || o.code != 5 || k.map_or(o.x > 0.0, |k| want[k][0] == 1)
}

fn settings(s: &mut Src, cx: &mut Ctx) -> Res {
    let kind = s.pick(&KINDS);
    let st = start(s, kind, 1);
    let n = s.usize_in(2, 40);
    // now and then with any value at all
    let wild = s.chance(1, 6);
    let ops: Vec<Op> = (0..n).map(|_| op(s, kind, wild)).collect();
    cx.note(|| format!("{kind:?} {:?} buffers {:?} {:?}", st.p, st.a, st.b));
    cx.note(|| format!("history {ops:?}"));
    let (mut t, mut u) = (Thing::new(&st), Thing::new(&st));
    let mut want = vec![];
    for o in &ops {
        want.push(step(&mut t, kind, o)?);
    }
    let mut h: Marked = ops.iter().enumerate().map(|(i, o)| (Some(i), *o)).collect();
    let mut done = 0;
    for _ in 0..s.usize_in(1, 12) {
        let what = change(s, &st, &mut h, &want, wild);
        if !what.is_empty() {
            done += 1;
            cx.label(what);
        }
    }
    cx.note(|| format!("equivalent {h:?}"));
    // each operation of the original history has to answer the same, wherever it went
    for (k, o) in &h {
        let r = step(&mut u, kind, o)?;
        if let Some(k) = k {
            ensure!(r == want[*k], "{kind:?}: operation {k} {o:?} answers {:x?}, in the equivalent history {r:x?}", want[*k]);
        }
    }
    ensure!(t.memory() == u.memory(), "{kind:?}: the buffers end up differently");
    cx.nontrivial_if(done > 0 && ops.iter().filter(|o| o.code == 0).count() > 1);
    Ok(())
}

/// Constructed with some parameters, or with others and set afterwards.
fn constructed(s: &mut Src, cx: &mut Ctx) -> Res {
    let kind = s.pick(&[Kind::Osc, Kind::Wavetable, Kind::Phase, Kind::Envelope]);
    let st = start(s, kind, 1);
    let mut other = start(s, kind, 1);
    (other.a, other.b) = (st.a.clone(), st.b.clone());
    let ops: Vec<Op> = (0..s.usize_in(2, 40)).map(|_| op(s, kind, false)).collect();
    cx.note(|| format!("{kind:?} {:?}, or {:?} and set to that; buffers {:?} {:?}; {ops:?}", st.p, other.p, st.a, st.b));
    let (mut t, mut u) = (Thing::new(&st), Thing::new(&other));
    let mut codes: Vec<u8> = match kind {
        Kind::Osc => vec![4, 1],
        Kind::Wavetable => vec![3, 1],
        Kind::Phase => vec![3, 2],
        // the sample rate first: times are converted when they are set
        _ => vec![9, 4, 5, 6, 7, 8],
    };
    let first = (kind == Kind::Envelope) as usize;
    for k in (first + 1..codes.len()).rev() {
        codes.swap(k, s.usize_in(first, k));
    }
    for c in codes {
        step(&mut u, kind, &initial(&st, c).unwrap())?;
    }
    for (k, o) in ops.iter().enumerate() {
        let (a, b) = (step(&mut t, kind, o)?, step(&mut u, kind, o)?);
        ensure!(a == b, "{kind:?}: operation {k} {o:?} answers {a:x?}, after setting the parameters {b:x?}");
    }
    cx.nontrivial_if(ops.iter().filter(|o| o.code == 0).count() > 1);
    Ok(())
}

/// Automation: any number of settings that are all superseded before the next sample, and questions in between.
fn automation(s: &mut Src, cx: &mut Ctx) -> Res {
    let kind = s.pick(&KINDS);
    let st = start(s, kind, 1);
    let codes = |f: &dyn Fn(Role) -> bool| -> Vec<u8> { (0..CODES[kind as usize]).filter(|c| f(role(kind, *c))).collect() };
    let sets = codes(&|r| matches!(r, Role::Sets(_)));
    // attaching keeps the position only while it is at the start
    let fresh = s.chance(1, 3) && kind != Kind::Biquad;
    let pool_codes = codes(&|r| matches!(r, Role::Sets(_) | Role::Asks) || fresh && r == Role::Attaches);
    if pool_codes.is_empty() {
        return Ok(());
    }
    let mut before: Vec<Op> = vec![];
    if !fresh {
        before = (0..s.usize_in(1, 30)).map(|_| op(s, kind, false)).collect();
        before.retain(|o| !(kind == Kind::Envelope && role(kind, o.code) == Role::Sets(ENVELOPE_SR)));
        if kind == Kind::Biquad {
            before.insert(0, op_with(s, kind, sets[0], false));
        }
    }
    let pool: Vec<Op> = (0..s.usize_in(1, 10))
        .map(|_| {
            let c = pool_codes[s.usize_in(0, pool_codes.len() - 1)];
            op_with(s, kind, c, false)
        })
        .collect();
    let most = if s.chance(1, 50) { 70_000.0 } else { 600.0 };
    let n = s.f32_log(1.0, most) as u64;
    let key = s.below(0);
    let after: Vec<Op> = (0..s.usize_in(2, 30)).map(|_| op(s, kind, false)).collect();
    cx.note(|| format!("{kind:?} {:?} buffers {:?} {:?}: {before:?}, then {n} of {pool:?} and what was set before, then {after:?}", st.p, st.a, st.b));
    let (mut t, mut u) = (Thing::new(&st), Thing::new(&st));
    let mut set: Vec<(Role, Op)> = vec![];
    let put = |set: &mut Vec<(Role, Op)>, o: Op| {
        let r = role(kind, o.code);
        set.retain(|e| e.0 != r);
        set.push((r, o));
    };
    for c in codes(&|r| matches!(r, Role::Sets(_)) || fresh && r == Role::Attaches) {
        if let Some(o) = initial(&st, c) {
            put(&mut set, o);
        }
    }
    for (k, o) in before.iter().enumerate() {
        let (a, b) = (step(&mut t, kind, o)?, step(&mut u, kind, o)?);
        ensure!(a == b, "{kind:?}: operation {k} {o:?} answers {a:x?} and {b:x?}");
        if matches!(role(kind, o.code), Role::Sets(_)) && (kind != Kind::Phase || o.code != 5 || o.x > 0.0) {
            put(&mut set, *o);
        }
    }
    for k in 0..n {
        step(&mut u, kind, &pool[(mix(key ^ k) % pool.len() as u64) as usize])?;
    }
    // times are converted when they are set, so the sample rate comes first
    set.sort_by_key(|e| kind != Kind::Envelope || e.0 != Role::Sets(ENVELOPE_SR));
    for (_, o) in &set {
        step(&mut u, kind, o)?;
    }
    for (k, o) in after.iter().enumerate() {
        let (a, b) = (step(&mut t, kind, o)?, step(&mut u, kind, o)?);
        ensure!(a == b, "{kind:?}: operation {k} {o:?} afterwards answers {a:x?}, after {n} superseded settings {b:x?}");
    }
    ensure!(t.memory() == u.memory(), "{kind:?}: the buffers end up differently");
    cx.nontrivial_if(pool.iter().any(|o| role(kind, o.code) != Role::Asks) && after.iter().any(|o| o.code == 0));
    Ok(())
}

fn main() {
    pbt::main("C32", &[rand("settings", 1_500_000, 60_000_000, settings), rand("constructed", 500_000, 20_000_000, constructed), rand("automation", 120_000, 5_000_000, automation)]);
}
