//! Everything the library offers behind one interface: plain functions by number, objects by operation code.
use crate::filt::{bits, Bq, Co};
use crate::signal::Arena;
use crate::Src;
use embedded_audio_tools::convert::*;
use embedded_audio_tools::dynamics::digital_clip;
use embedded_audio_tools::envelopes::AudioRateADSR;
use embedded_audio_tools::fixed_point::math::sin_i16;
use embedded_audio_tools::float::{self, AdditionalF32Ext, DSPUtility};
use embedded_audio_tools::memory_access::{MemorySlice, Mutable};
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::stereo::*;
use embedded_audio_tools::{AllPass, Comb, DelayLine, FunctionalOscillator, PhaseAccumulator, SoftPhaseAccumulator, WavetableOscillator};

/// Arguments of a plain function; each uses what it needs.
#[derive(Clone, Debug)]
pub struct Args {
    pub x: [f32; 4],
    pub n: u8,
    pub k: u32,
    pub v: Vec<f32>,
}
pub type Out = [u32; 5];
fn o1(a: f32) -> Out {
    [a.to_bits(), 0, 0, 0, 0]
}
fn o2(a: (f32, f32)) -> Out {
    [a.0.to_bits(), a.1.to_bits(), 0, 0, 0]
}
fn or<E>(r: Result<f32, E>, code: impl Fn(&E) -> u32) -> Out {
    match r {
        Ok(v) => [v.to_bits(), 1, 0, 0, 0],
        Err(e) => [0, 2, code(&e), 0, 0],
    }
}
/// Which error.
fn disc<E>(e: &E) -> u32 {
    use std::hash::{Hash, Hasher};
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = self.0 * 31 + *x as u64;
            }
        }
    }
    let mut h = H(0);
    std::mem::discriminant(e).hash(&mut h);
    h.finish() as u32
}
fn design(a: &Args, f: fn(&mut Co, f32, f32, f32, f32)) -> Out {
    let mut c = Co::new();
    f(&mut c, a.x[0], a.x[1], a.x[2], a.x[3]);
    bits(&c)
}

/// What a function's arguments have to be.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dom {
    /// any f32, NaN and infinities included
    Any,
    /// a position inside a list of points
    Nodes,
    /// fc q gain sr
    Filter,
}

pub struct Pure {
    pub name: &'static str,
    pub dom: Dom,
    pub f: fn(&Args) -> Out,
}
macro_rules! pure {
    ($($n:literal $d:ident $f:expr;)*) => { &[$(Pure { name: $n, dom: Dom::$d, f: $f }),*] };
}
pub const PURE: &[Pure] = pure! {
    "sinh" Any |a| o1(AdditionalF32Ext::sinh(&a.x[0]));
    "cosh" Any |a| o1(AdditionalF32Ext::cosh(&a.x[0]));
    "tanh" Any |a| o1(AdditionalF32Ext::tanh(&a.x[0]));
    "fast_tan" Any |a| o1(a.x[0].fast_tan());
    "fixed_point_sin" Any |a| o1(a.x[0].fixed_point_sin());
    "fixed_point_cos" Any |a| o1(a.x[0].fixed_point_cos());
    "lookup_sin" Any |a| o1(a.x[0].lookup_sin());
    "lookup_bl_rect" Any |a| o1(a.x[0].lookup_bl_rect());
    "sinc" Any |a| o1(a.x[0].sinc());
    "sin_i16" Any |a| [sin_i16(a.k as u16 as i16, a.n) as u16 as u32, 0, 0, 0, 0];
    "lerp_unchecked" Any |a| o1(float::lerp_unchecked(a.x[0], a.x[1], a.x[2]));
    "lerp" Any |a| or(float::lerp(a.x[0], a.x[1], a.x[2]), disc);
    "lagrange" Nodes |a| o1(float::lagrange(&a.v, a.x[0]));
    "lagrange_only_4_elements" Nodes |a| o1(unsafe { float::lagrange_only_4_elements(&[a.x[1], a.x[2], a.x[3], a.x[1]], a.x[0]) });
    "bit_reduce_unchecked" Any |a| o1(float::bit_reduce_unchecked(a.x[0], a.n % 31));
    "bit_reduce" Any |a| or(float::bit_reduce(a.x[0], a.n), disc);
    "bit_reduce_exp_unchecked" Any |a| o1(float::bit_reduce_exp_unchecked(a.x[0], a.n % 24));
    "bit_reduce_exp" Any |a| or(float::bit_reduce_exp(a.x[0], a.n), disc);
    "samples_to_seconds" Any |a| o1(a.x[0].samples_to_seconds(a.x[1]));
    "samples_to_millis" Any |a| o1(a.x[0].samples_to_millis(a.x[1]));
    "seconds_to_samples" Any |a| o1(a.x[0].seconds_to_samples(a.x[1]));
    "millis_to_samples" Any |a| o1(a.x[0].millis_to_samples(a.x[1]));
    "to_raw_word" Any |a| [a.x[0].to_raw_word(), 0, 0, 0, 0];
    "from_raw_word" Any |a| o1(f32::from_raw_word(a.k));
    "components" Any |a| { let c = a.x[0].to_f32_components(); [f32::from_f32_components(c).to_bits(), 0, 0, 0, 0] };
    "components of a word" Any |a| { let c = a.k.to_f32_components(); [u32::from_f32_components(c), 0, 0, 0, 0] };
    "to_decibels_unchecked" Any |a| o1(a.x[0].to_decibels_unchecked());
    "to_decibels" Any |a| or(a.x[0].to_decibels(), disc);
    "to_decibels_checked" Any |a| or(a.x[0].to_decibels_checked(), disc);
    "to_volt_ratio" Any |a| o1(a.x[0].to_volt_ratio());
    "digital_clip" Any |a| o1(digital_clip(a.x[0]));
    "stereo_pan_unchecked" Any |a| o2(stereo_pan_unchecked(a.x[0], (a.x[1], a.x[2])));
    "mono_pan_unchecked" Any |a| o2(mono_pan_unchecked(a.x[0], a.x[1]));
    "crossfade" Any |a| o1(crossfade_correlated_unchecked(a.x[0], (a.x[1], a.x[2])));
    "stereo_pan" Any |a| stereo_pan(a.x[0], (a.x[1], a.x[2])).map_or_else(|e| [0, 0, disc(&e), 0, 0], o2);
    "mono_pan" Any |a| mono_pan(a.x[0], a.x[1]).map_or_else(|e| [0, 0, disc(&e), 0, 0], o2);
    "lowpass" Filter |a| design(a, |c, fc, q, _, sr| c.lowpass(fc, q, sr));
    "highpass" Filter |a| design(a, |c, fc, q, _, sr| c.highpass(fc, q, sr));
    "allpass" Filter |a| design(a, |c, fc, q, _, sr| c.allpass(fc, q, sr));
    "notch" Filter |a| design(a, |c, fc, q, _, sr| c.notch(fc, q, sr));
    "bell" Filter |a| design(a, |c, fc, q, g, sr| c.bell(fc, q, g, sr));
    "bell_boost_only" Filter |a| design(a, |c, fc, q, g, sr| c.bell_boost_only(fc, q, g.abs(), sr));
    "bell_cut_only" Filter |a| design(a, |c, fc, q, g, sr| c.bell_cut_only(fc, q, -g.abs(), sr));
    "low_shelf" Filter |a| design(a, |c, fc, q, g, sr| c.low_shelf(fc, q, g, sr));
    "low_shelf_boost_only" Filter |a| design(a, |c, fc, q, g, sr| c.low_shelf_boost_only(fc, q, g.abs(), sr));
    "low_shelf_cut_only" Filter |a| design(a, |c, fc, q, g, sr| c.low_shelf_cut_only(fc, q, -g.abs(), sr));
    "sine integral" Any |a| o1(a.x[0].si());
};
/// The last function is a thousand times as expensive as the others.
pub const CHEAP: usize = PURE.len() - 1;

/// Ordinary arguments, with the same number of points etc. as `like`.
pub fn tame(p: &Pure, like: &Args) -> Args {
    let mut a = like.clone();
    a.x = match p.dom {
        Dom::Any => [0.4, 0.7, 0.3, 0.2],
        Dom::Nodes => [0.4, 0.7, 0.3, 0.2],
        Dom::Filter => [1000.0, 0.7, like.x[2].signum() * 2.0, 48_000.0],
    };
    a.n = like.n.min(8);
    a.k = 1234;
    a.v.iter_mut().enumerate().for_each(|(i, v)| *v = i as f32);
    a
}

/// `wild`: anything in the domain; otherwise what audio programs use.
pub fn args(s: &mut Src, p: &Pure, wild: bool) -> Args {
    let mut x = [0.0; 4];
    let mut v = vec![];
    match p.dom {
        Dom::Any => {
            for x in x.iter_mut() {
                *x = match (wild, s.weighted(&[2, 2, 1, 1])) {
                    (true, 0) => s.f32_any(),
                    (true, 1) => s.f32_log(1.0, 3.0e38) * if s.chance(1, 2) { -1.0 } else { 1.0 },
                    (_, 2) => s.f32_in(-10.0, 10.0),
                    _ => s.sample(),
                };
            }
        }
        Dom::Nodes => {
            v = (0..s.usize_in(2, 12)).map(|_| if wild { s.f32_finite() } else { s.sample() }).collect();
            x[0] = s.f32_in(0.0, if p.name == "lagrange" { (v.len() - 1) as f32 } else { 3.0 });
            for x in x[1..].iter_mut() {
                *x = if wild { s.f32_finite() } else { s.sample() };
            }
        }
        Dom::Filter => {
            let (fc, sr) = crate::filt::rates(s, 1e-3, 0.5);
            x = [fc, s.f32_log(0.05, 50.0), s.f32_log(0.05, 30.0) * if s.chance(1, 2) { -1.0 } else { 1.0 }, sr];
            if wild && s.chance(1, 2) {
                x = [s.f32_any(), s.f32_any(), s.f32_any(), s.f32_any()];
            }
        }
    }
    Args { x, n: if wild { s.below(256) as u8 } else { s.below(33) as u8 }, k: s.below(1 << 32) as u32, v }
}

// ---------------------------------------------------------------------------------------------
// Objects
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Osc,
    Wavetable,
    Phase,
    Envelope,
    Biquad,
    Comb,
    AllPass,
    Delay,
    View,
}
pub const KINDS: [Kind; 9] =
    [Kind::Osc, Kind::Wavetable, Kind::Phase, Kind::Envelope, Kind::Biquad, Kind::Comb, Kind::AllPass, Kind::Delay, Kind::View];

/// How an object starts out.
#[derive(Clone, Debug)]
pub struct Start {
    pub kind: Kind,
    pub p: [f32; 6],
    pub a: Vec<f32>,
    pub b: Vec<f32>,
}
#[derive(Clone, Copy, Debug)]
pub struct Op {
    pub code: u8,
    pub x: f32,
    pub y: f32,
    pub z: f32,
    pub w: f32,
    pub i: isize,
}
pub const CODES: [u8; 9] = [5, 4, 6, 11, 11, 5, 3, 8, 9];

enum Obj {
    Osc(FunctionalOscillator<SoftPhaseAccumulator>),
    Wavetable(WavetableOscillator<SoftPhaseAccumulator>),
    Phase(SoftPhaseAccumulator),
    Envelope(AudioRateADSR),
    Biquad(Bq),
    Comb(Comb),
    AllPass(AllPass),
    Delay(DelayLine),
    View(MemorySlice<Mutable>),
}
pub struct Thing {
    obj: Obj,
    pub a: Arena,
    pub b: Arena,
}
/// Things own everything they refer to.
unsafe impl Send for Thing {}

impl Thing {
    pub fn new(s: &Start) -> Thing {
        Thing::new_at(s, 0)
    }
    /// With buffers `shift` elements further from where their allocations start.
    pub fn new_at(s: &Start, shift: usize) -> Thing {
        let (a, b) = (Arena::shifted(&s.a, shift), Arena::shifted(&s.b, shift));
        let p = s.p;
        let acc = || SoftPhaseAccumulator::new(p[0], p[1]);
        let obj = match s.kind {
            Kind::Osc => Obj::Osc(FunctionalOscillator::new(acc())),
            Kind::Wavetable => Obj::Wavetable(WavetableOscillator::new(a.view(), acc())),
            Kind::Phase => Obj::Phase(acc()),
            Kind::Envelope => Obj::Envelope(AudioRateADSR::new(p[2], p[3], p[4], p[2], p[5], p[1])),
            Kind::Biquad => Obj::Biquad(Bq::new(Co::new())),
            Kind::Comb => Obj::Comb(Comb::new(a.view_mut())),
            Kind::AllPass => Obj::AllPass(AllPass::new(a.view_mut())),
            Kind::Delay => Obj::Delay(DelayLine::new(a.view_mut())),
            Kind::View => Obj::View(a.view_mut()),
        };
        Thing { obj, a, b }
    }

    #[inline(never)]
    pub fn step(&mut self, op: &Op) -> [u32; 4] {
        let Op { code, x, y, z, w, i } = *op;
        let f = |v: f32| [v.to_bits(), 0, 0, 0];
        let none = [0; 4];
        let pick = |a: &Arena, b: &Arena| if i % 2 == 0 { a.view_mut() } else { b.view_mut() };
        match &mut self.obj {
            Obj::Osc(o) => match code {
                0 => f(o.next()),
                1 => (o.set_freq_unchecked(x), none).1,
                2 => (o.set_phase_shift_unchecked(y), none).1,
                3 => {
                    o.set_wave(match i.rem_euclid(4) {
                        0 => Waveform::Sine,
                        1 => Waveform::Rectangle,
                        2 => Waveform::Sawtooth,
                        _ => Waveform::Triangle,
                    });
                    none
                }
                _ => (o.set_sr_unchecked(z), none).1,
            },
            Obj::Wavetable(o) => match code {
                0 => f(o.next()),
                1 => (o.set_freq_unchecked(x), none).1,
                2 => (o.set_phase_shift_unchecked(y), none).1,
                _ => (o.set_sr_unchecked(z), none).1,
            },
            Obj::Phase(o) => match code {
                0 => [o.next_value(), 0, 0, 0],
                1 => f(o.next_value_normalized()),
                2 => (o.set_freq_unchecked(x), none).1,
                3 => (o.set_sr_unchecked(z), none).1,
                4 => (o.set_phase_shift(i as u32), none).1,
                _ => [crate::signal::set_freq(o, x).is_ok() as u32, 0, 0, 0],
            },
            Obj::Envelope(o) => match code {
                0 => f(o.tick()),
                1 => (o.trigger_on(), none).1,
                2 => (o.trigger_off(), none).1,
                3 => (o.reset(), none).1,
                4 => (o.set_attack(x), none).1,
                5 => (o.set_decay(x), none).1,
                6 => (o.set_release(x), none).1,
                7 => (o.set_sustain(y), none).1,
                8 => (o.set_slope(w), none).1,
                9 => (o.set_sr(z), none).1,
                _ => [o.get_state() as u32, 0, 0, 0],
            },
            Obj::Biquad(o) => {
                match code {
                    0 => return f(o.process(x)),
                    1 => o.coeffs.lowpass(y, w, z),
                    2 => o.coeffs.highpass(y, w, z),
                    3 => o.coeffs.allpass(y, w, z),
                    4 => o.coeffs.notch(y, w, z),
                    5 => o.coeffs.bell(y, w, x, z),
                    6 => o.coeffs.low_shelf(y, w, x, z),
                    7 => o.coeffs.bell_boost_only(y, w, x.abs(), z),
                    8 => o.coeffs.bell_cut_only(y, w, -x.abs(), z),
                    9 => o.coeffs.low_shelf_boost_only(y, w, x.abs(), z),
                    _ => o.coeffs.low_shelf_cut_only(y, w, -x.abs(), z),
                }
                let b = bits(&o.coeffs);
                [b[0] ^ b[4], b[1], b[2], b[3]]
            }
            Obj::Comb(o) => match code {
                0 => f(o.tick(x)),
                1 => (o.set_dampening(y), none).1,
                2 => (o.set_feedback(w), none).1,
                3 => (o.change_buffer(pick(&self.a, &self.b)), none).1,
                _ => [o.get_ptr_slice_mut().len() as u32, 0, 0, 0],
            },
            Obj::AllPass(o) => match code {
                0 => f(o.tick(x)),
                1 => (o.change_buffer(pick(&self.a, &self.b)), none).1,
                _ => [o.get_ptr_slice_mut().len() as u32, 0, 0, 0],
            },
            Obj::Delay(o) => match code {
                0 => (o.write_and_advance(x), none).1,
                1 => f(o.read()),
                2 => f(o.read_wrapped_at(i)),
                3 => f(o.read_lerp_wrapped_at(y)),
                4 => f(o.read_lagrange_wrapped_at(y)),
                5 => (o.advance(), none).1,
                6 => (o.change_buffer(pick(&self.a, &self.b)), none).1,
                _ => [o.get_ptr_slice_mut().len() as u32, o.len() as u32, 0, 0],
            },
            Obj::View(o) => match code {
                0 => [o.assign(i as usize, x).is_ok() as u32, 0, 0, 0],
                1 => o.get(i as usize).map_or(none, f),
                2 => f(o.get_wrapped(i)),
                3 => o.get_slice_of_four_wrapped(i).map(|v| v.to_bits()),
                4 => o.lerp(w).map_or(none, f),
                5 => f(o.lerp_wrapped(y)),
                6 => f(o.lagrange_wrapped(y, z as usize)),
                7 => f(o.lagrange_four_points_wrapped(y)),
                _ => o.get_sub_slice(i as usize, z as usize).map_or(none, |v| [v.len() as u32, 1, 0, 0]),
            },
        }
    }
    /// The object copied as it is (it refers to the buffers of the original), for the kinds that can be.
    #[allow(clippy::clone_on_copy)]
    pub fn copy_into(&mut self, other: &mut Thing, clone: bool) -> bool {
        let obj = match &self.obj {
            Obj::Comb(o) if clone => Obj::Comb(o.clone()),
            Obj::AllPass(o) if clone => Obj::AllPass(o.clone()),
            Obj::Delay(o) if clone => Obj::Delay(o.clone()),
            Obj::View(o) if clone => Obj::View(o.clone()),
            Obj::Comb(o) => Obj::Comb(*o),
            Obj::AllPass(o) => Obj::AllPass(*o),
            Obj::Delay(o) => Obj::Delay(*o),
            Obj::View(o) => Obj::View(*o),
            _ => return false,
        };
        other.obj = obj;
        true
    }
    /// Gives the buffers the content `m`.
    pub fn restore(&mut self, m: &(Vec<u32>, Vec<u32>)) {
        for (i, v) in m.0.iter().enumerate() {
            self.a.set(i, f32::from_bits(*v));
        }
        for (i, v) in m.1.iter().enumerate() {
            self.b.set(i, f32::from_bits(*v));
        }
    }
    pub fn memory(&self) -> (Vec<u32>, Vec<u32>) {
        (self.a.content(), self.b.content())
    }
}

/// `wild`: any parameter the library accepts; otherwise what audio programs use.
pub fn op(s: &mut Src, kind: Kind, wild: bool) -> Op {
    let codes = CODES[kind as usize];
    // the per-sample operation is the most frequent one
    let code = if s.chance(1, 2) { s.below(codes as u64) as u8 } else { 0 };
    op_with(s, kind, code, wild)
}

pub fn op_with(s: &mut Src, kind: Kind, code: u8, wild: bool) -> Op {
    let mut o = Op { code, x: 0.0, y: 0.0, z: 0.0, w: 0.0, i: 0 };
    o.i = if wild { s.below(0) as isize >> s.pick(&[0u32, 31, 56, 60]) } else { s.i64_in(-40, 40) as isize };
    let rate = s.pick(&[48_000.0f32, 44_100.0, 8_000.0, 192_000.0]);
    match kind {
        Kind::Osc | Kind::Wavetable | Kind::Phase => {
            o.x = s.f32_log(0.1, 20_000.0);
            o.y = s.unit() as f32;
            o.z = rate;
            if s.chance(1, 8) {
                o.x = s.pick(&[0.0, 0.25, 0.5, 1.0]) * rate;
                o.y = s.pick(&[0.0, 0.25, 0.5, 1.0]);
            }
            if wild {
                o.x = s.f32_any();
                o.y = s.f32_any();
                o.z = s.f32_any();
            }
        }
        Kind::Envelope => {
            o.x = s.f32_log(1e-5, 1.0);
            o.y = s.f32_in(0.0, 1.0);
            o.z = rate;
            o.w = s.f32_log(0.1, 10.0);
            if s.chance(1, 8) {
                o.x = s.pick(&[0.0, 1.0, 0.01]);
                o.y = s.pick(&[0.0, 1.0, 0.5]);
                o.w = s.pick(&[1.0, 0.0, 100.0]);
            }
            if wild {
                o.x = s.f32_any();
                o.y = s.f32_any();
                o.z = s.f32_log(1.0, 1.0e6);
                o.w = s.f32_any();
            }
        }
        Kind::Biquad => {
            let (fc, sr) = crate::filt::rates(s, 1e-3, 0.45);
            (o.y, o.z) = (fc, sr);
            o.x = if code == 0 { s.sample() } else { s.f32_log(0.1, 10.0) * if s.chance(1, 2) { -1.0 } else { 1.0 } };
            o.w = s.f32_log(0.1, 20.0);
            if wild {
                o.x = s.f32_any();
                if s.chance(1, 3) {
                    o.y = s.f32_any();
                    o.z = s.f32_any();
                    o.w = s.f32_any();
                }
            }
        }
        Kind::Comb | Kind::AllPass => {
            o.x = if wild { s.f32_any() } else { s.sample() };
            o.y = if wild { s.f32_any() } else { s.f32_in(0.0, 1.0) };
            o.w = if wild { s.f32_any() } else { s.f32_in(-0.99, 0.99) };
            if s.chance(1, 8) {
                o.y = s.pick(&[0.0, 1.0, 0.5]);
                o.w = s.pick(&[0.0, 1.0, 0.5, -1.0, 1.01]);
            }
        }
        Kind::Delay | Kind::View => {
            o.x = if wild { s.f32_any() } else { s.sample() };
            o.y = s.f32_in(-50.0, 50.0);
            o.w = o.y;
            o.z = s.usize_in(0, 12) as f32;
            if wild {
                let v = s.f32_any();
                o.w = v;
                // positions are finite and fit the index type of the target
                o.y = if v.is_finite() && v.abs() < 1.0e9 { v } else { s.f32_log(1.0, 1.0e9) * if s.chance(1, 2) { -1.0 } else { 1.0 } };
                if s.chance(1, 20) {
                    o.z = if s.chance(1, 2) { s.usize_in(0, 130) as f32 } else { s.f32_any() };
                }
            }
        }
    }
    o
}

pub fn start(s: &mut Src, kind: Kind, min: usize) -> Start {
    let rate = s.pick(&[48_000.0f32, 44_100.0, 8_000.0, 192_000.0]);
    let p = [
        s.f32_log(1.0, 5_000.0),
        rate,
        s.f32_in(0.0, 40.0) / rate,
        s.f32_in(0.0, 40.0) / rate,
        s.f32_in(0.0, 1.0),
        s.f32_log(0.1, 10.0),
    ];
    let (n, m) = (crate::signal::length(s, min), crate::signal::length(s, min));
    Start { kind, p, a: s.vec(n, |s| s.sample()), b: s.vec(m, |s| s.sample()) }
}
