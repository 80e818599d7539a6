//! Guarded memory and a scripted phase accumulator.

use embedded_audio_tools::errors::FrequencyError;
use embedded_audio_tools::memory_access::{from_slice, from_slice_mut, MemorySlice, Mutable, NonMutable};
use embedded_audio_tools::{PhaseAccumulator, SoftPhaseAccumulator};
use std::cell::RefCell;
use std::rc::Rc;

/// Elements in front of and behind every buffer.  With AddressSanitizer the heap redzone does the job.
#[cfg(not(asan))]
pub const GUARD: usize = 16;
#[cfg(asan)]
pub const GUARD: usize = 0;


/// A quiet NaN nobody else produces: whoever reads a guard element gets NaN.
pub const POISON: u32 = 0x7FC0_DEAD;

/// A buffer of exactly `len` samples surrounded by poisoned guard elements.
pub struct Arena {
    base: *mut f32,
    total: usize,
    front: usize,
    len: usize,
}

impl Arena {
    pub fn new(content: &[f32]) -> Arena {
        Arena::shifted(content, 0)
    }
    /// The same `shift` elements further from where the allocation starts.
    pub fn shifted(content: &[f32], shift: usize) -> Arena {
        let front = GUARD + shift;
        let total = content.len() + front + GUARD;
        let mut v: Vec<f32> = Vec::with_capacity(total);
        v.extend(std::iter::repeat(f32::from_bits(POISON)).take(front));
        v.extend_from_slice(content);
        v.extend(std::iter::repeat(f32::from_bits(POISON)).take(GUARD));
        let b = v.into_boxed_slice();
        Arena { base: Box::into_raw(b) as *mut f32, total, front, len: content.len() }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn ptr(&self) -> *mut f32 {
        unsafe { self.base.add(self.front) }
    }
    pub fn view_mut(&self) -> MemorySlice<Mutable> {
        from_slice_mut(unsafe { std::slice::from_raw_parts_mut(self.ptr(), self.len) })
    }
    pub fn view(&self) -> MemorySlice<NonMutable> {
        from_slice(unsafe { std::slice::from_raw_parts(self.ptr(), self.len) })
    }
    /// View of part of the buffer, made without the library's own sub-view function.
    pub fn part_mut(&self, off: usize, len: usize) -> MemorySlice<Mutable> {
        assert!(off + len <= self.len);
        from_slice_mut(unsafe { std::slice::from_raw_parts_mut(self.ptr().add(off), len) })
    }
    pub fn part(&self, off: usize, len: usize) -> MemorySlice<NonMutable> {
        assert!(off + len <= self.len);
        from_slice(unsafe { std::slice::from_raw_parts(self.ptr().add(off), len) })
    }
    pub fn bits(&self, i: usize) -> u32 {
        assert!(i < self.len);
        unsafe { (self.ptr().add(i) as *const u32).read_volatile() }
    }
    pub fn at(&self, i: usize) -> f32 {
        f32::from_bits(self.bits(i))
    }
    pub fn set(&mut self, i: usize, v: f32) {
        assert!(i < self.len);
        unsafe { self.ptr().add(i).write_volatile(v) }
    }
    pub fn content(&self) -> Vec<u32> {
        (0..self.len).map(|i| self.bits(i)).collect()
    }
    pub fn guards_intact(&self) -> bool {
        let g = |k: usize| unsafe { (self.base.add(k) as *const u32).read_volatile() } == POISON;
        (0..self.front).all(g) && (0..GUARD).all(|k| g(self.total - 1 - k))
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.base, self.total))) }
    }
}

/// What a scripted accumulator was told and asked.
#[derive(Default, Debug)]
pub struct PaLog {
    pub steps: usize,
    pub freq: Vec<f32>,
    pub sr: Vec<f32>,
    pub shift: Vec<u32>,
}

/// A user-supplied phase accumulator that replays a list of phases.
pub struct ScriptPA {
    pub phases: Vec<u32>,
    pub log: Rc<RefCell<PaLog>>,
}

/// Largest f32 below one.
pub const BELOW_ONE: f32 = 1.0 - f32::EPSILON / 2.0;

pub fn norm(v: u32) -> f32 {
    (v as f32 / 4_294_967_296.0).min(BELOW_ONE)
}

impl ScriptPA {
    pub fn scripted(phases: Vec<u32>) -> (ScriptPA, Rc<RefCell<PaLog>>) {
        let log = Rc::new(RefCell::new(PaLog::default()));
        (ScriptPA { phases, log: log.clone() }, log)
    }
}

impl PhaseAccumulator for ScriptPA {
    type Object = ScriptPA;
    fn new(_freq: f32, _sr: f32) -> ScriptPA {
        ScriptPA::scripted(vec![]).0
    }
    fn set_sr_unchecked(&mut self, sr: f32) {
        self.log.borrow_mut().sr.push(sr);
    }
    fn set_freq_unchecked(&mut self, freq: f32) {
        self.log.borrow_mut().freq.push(freq);
    }
    fn set_phase_shift(&mut self, shift: u32) {
        self.log.borrow_mut().shift.push(shift);
    }
    fn next_value(&mut self) -> u32 {
        let mut l = self.log.borrow_mut();
        let v = self.phases.get(l.steps).copied().unwrap_or(0);
        l.steps += 1;
        v
    }
    fn next_value_normalized(&mut self) -> f32 {
        norm(self.next_value())
    }
}

/// Phases as a u32 fraction of a turn: boundaries of the turn, halves and quarters over-represented.
pub fn phase(s: &mut crate::Src) -> u32 {
    match s.weighted(&[3, 2, 2, 2]) {
        0 => s.below(1 << 32) as u32,
        1 => (s.below(512) as u32).wrapping_sub(256),
        2 => (s.below(8) as u32).wrapping_mul(1 << 29).wrapping_add((s.below(2048) as u32).wrapping_sub(1024)),
        _ => (s.below(1 << 12) as u32) << 20,
    }
}

/// A buffer length: mostly small (all corner cases live there), sometimes larger.
pub fn length(s: &mut crate::Src, min: usize) -> usize {
    match s.weighted(&[60, 30, 9, 1]) {
        0 => s.usize_in(min, min + 7),
        1 => s.usize_in(min, 40),
        2 => s.usize_in(min, 300),
        _ => s.usize_in(min, 2100),
    }
}

/// Every length up to 2100, then lengths of delays at common sample rates and powers of two; `i` enumerates them.
pub fn every_length(i: u64) -> usize {
    const MORE: [usize; 24] = [
        2205, 2400, 3000, 4095, 4096, 4097, 4410, 4800, 8192, 10_000, 11_025, 12_000, 16_000, 16_384, 22_050, 24_000, 32_768,
        44_100, 48_000, 65_535, 65_536, 65_537, 88_200, 96_000,
    ];
    if i < 2100 {
        i as usize + 1
    } else {
        MORE[(i as usize - 2100) % MORE.len()]
    }
}
pub const EVERY_LENGTH: u64 = 2124;

/// Lengths around and above 2^16, where arithmetic in a narrower type shows.
pub fn big_length(s: &mut crate::Src) -> usize {
    match s.weighted(&[3, 1]) {
        0 => s.pick(&[65_535usize, 65_536, 65_537, 70_001, 100_003, 131_072]),
        _ => s.usize_in(32_760, 140_000),
    }
}

/// An index near interesting places of a buffer of length `len`, or anywhere in usize.
pub fn any_index(s: &mut crate::Src, len: usize) -> usize {
    match s.weighted(&[8, 4, 2, 1, 1]) {
        0 => s.usize_in(0, len.saturating_sub(1)),
        1 => (len + s.usize_in(0, 3)).saturating_sub(1),
        2 => s.usize_in(0, 2 * len + 3),
        3 => usize::MAX - s.usize_in(0, len + 3),
        _ => [usize::MAX, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX / 4 + 1, 1 << 32][s.usize_in(0, 4)],
    }
}

/// A signed index near the seams of a circular buffer, far away, or extreme.
pub fn any_isize(s: &mut crate::Src, len: usize) -> isize {
    let l = len as i64;
    let v = match s.weighted(&[6, 4, 3, 2, 2]) {
        0 => s.i64_in(-3, l + 3),
        1 => s.i64_in(-3 * l - 3, 3 * l + 3),
        2 => s.i64_in(-1_000_000_007, 1_000_000_007),
        3 => {
            // near the top / bottom of the type
            let k = s.i64_in(0, l + 8);
            if s.chance(1, 2) {
                i64::MIN + k
            } else {
                i64::MAX - k
            }
        }
        _ => s.below(0) as i64,
    };
    v as isize
}

// ---------------------------------------------------------------------------------------------

pub struct InPlace;
pub struct Consuming;
/// The checked frequency setter, whether it changes the accumulator or (a mistake once made) consumes it.
pub trait CheckedSetter<How> {
    fn apply(&self, o: &mut SoftPhaseAccumulator, f: f32) -> Result<(), FrequencyError>;
}
impl<F: Fn(&mut SoftPhaseAccumulator, f32) -> Result<(), FrequencyError>> CheckedSetter<InPlace> for F {
    fn apply(&self, o: &mut SoftPhaseAccumulator, f: f32) -> Result<(), FrequencyError> {
        self(o, f)
    }
}
impl<F: Fn(SoftPhaseAccumulator, f32) -> Result<(), FrequencyError>> CheckedSetter<Consuming> for F {
    fn apply(&self, o: &mut SoftPhaseAccumulator, f: f32) -> Result<(), FrequencyError> {
        // what remains is what was there before
        self(unsafe { std::ptr::read(o) }, f)
    }
}
fn apply<How>(f: impl CheckedSetter<How>, o: &mut SoftPhaseAccumulator, x: f32) -> Result<(), FrequencyError> {
    f.apply(o, x)
}
pub fn set_freq(o: &mut SoftPhaseAccumulator, f: f32) -> Result<(), FrequencyError> {
    apply(SoftPhaseAccumulator::set_freq, o, f)
}

/// Audio in passages: noise, silence, a held value, a click and its decay, alternating signs, something barely audible,
/// sparse events, a slow wave; each lasts from one sample to about `longest`, so states are left alone for long.
pub struct Passages {
    key: u64,
    longest_log2: u64,
    number: u64,
    kind: u64,
    left: u64,
    v: f32,
    t: u64,
}

impl Passages {
    pub fn new(key: u64, longest: u64) -> Passages {
        Passages { key, longest_log2: 64 - longest.max(2).leading_zeros() as u64, number: 0, kind: 0, left: 0, v: 0.0, t: 0 }
    }
    /// The next sample, in [-1,1].
    pub fn next(&mut self) -> f32 {
        self.t += 1;
        let r = crate::mix(self.key ^ self.t);
        let noise = ((r >> 40) as f32 / (1u64 << 23) as f32) - 1.0;
        let begins = self.left == 0;
        if begins {
            self.number += 1;
            let p = crate::mix(!self.key ^ (self.number << 32));
            self.left = 1 + (p >> 32) % (1 << ((p >> 8) % self.longest_log2));
            self.kind = p % 12;
            self.v = noise;
        }
        self.left -= 1;
        match self.kind {
            0..=2 => noise,
            3 | 4 => 0.0,
            5 => -0.0,
            6 => self.v,
            7 => if begins { self.v } else { 0.0 },
            8 => if self.t & 1 == 0 { self.v } else { -self.v },
            9 => noise * 1e-9,
            10 => if r % 64 == 0 { noise } else { 0.0 },
            _ => (self.t as f32 * 0.01).sin() * self.v,
        }
    }
    /// Something that changes only with the passages.
    pub fn mood(&self) -> u64 {
        crate::mix(self.key ^ (self.number << 40)) >> 32
    }
}
