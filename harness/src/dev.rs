//! Generators, modifiers and sample players, any number of them side by side.
//!
//! Integers in scripts and events: frequencies in mHz, times in microseconds or
//! seconds and nanoseconds, levels in mdB, samples, gains and factors in 2^-24.
use crate::util::*;
use bae_rs::{generators::*, modifiers::*, utils::*, sample_format::*};
use std::collections::BTreeMap;
use std::time::Duration;

enum Obj {
    XSine(Sine), XSaw(Sawtooth), XSquare(Square), XTri(Triangle), XNoise(Noise), XZero(Zero),
    XGain(Gain), XPass(Passthrough), XDelay(Delay), XEcho(Echo), XGeneric(Generic),
    XLp(LowPass), XHp(HighPass), XBp(BandPass), XEnv(Envelope), XAdsr(ADSR),
    XResam(MonoResampler), XWav(MonoWav), XWavt(MonoWav),
}
use Obj::*;

/// Speeds are in units of 1/SPEED, rates of tracks in 1/4 Hz.
const SPEED: f64 = 3780.0;
fn v(i: i64) -> f64 { i as f64 / (1u64 << 24) as f64 }
fn hz(i: i64) -> f64 { i as f64 / 1000.0 }
fn us(i: i64) -> Duration { Duration::from_micros(i as u64) }

/// Sample k of the formula track or input with the given seed.
pub fn formula(k: u64, seed: u64) -> f32 { (((k * 7919 + seed * 104729) % 2001) as f32 - 1000.0) / 1024.0 }

/// `L q...` or `F n seed`.
fn data(op: &Op, at: usize) -> MonoTrackT {
    match op.s(at) {
        "L" => (at + 1..op.n()).map(|k| Mono { mono: up(v(op.i(k)) as f32) }).collect(),
        "F" => (0..op.i(at + 1) as u64).map(|k| Mono { mono: up(formula(k, op.i(at + 2) as u64)) }).collect(),
        x => panic!("HARNESS: data {}", x),
    }
}

impl Obj {
    fn make(op: &Op) -> Obj {
        match op.s(1) {
            "sine" => XSine(FreqMod::new(hz(op.i(2)))),
            "saw" => XSaw(FreqMod::new(hz(op.i(2)))),
            "square" => XSquare(FreqMod::new(hz(op.i(2)))),
            "tri" => XTri(FreqMod::new(hz(op.i(2)))),
            "noise" => XNoise(bae_rs::generators::Noise::new()),
            "zero" => XZero(bae_rs::generators::Zero::new()),
            "gain" => XGain(bae_rs::modifiers::Gain::new(out_gain(v(op.i(2))) as f32)),
            "pass" => XPass(Passthrough::new()),
            "delay" => XDelay(bae_rs::modifiers::Delay::new(Duration::new(op.i(2) as u64, op.i(3) as u32))),
            "echo" => XEcho(bae_rs::modifiers::Echo::new(Duration::new(op.i(2) as u64, op.i(3) as u32), v(op.i(4)))),
            // generic NZ i c i c ... j c j c ...
            "generic" => {
                let nz = op.u(2);
                let t = (3..op.n()).step_by(2).map(|k| (op.u(k), v(op.i(k + 1)) as f32)).collect::<Vec<_>>();
                XGeneric(bae_rs::modifiers::Generic::new(t[..nz].iter().cloned().collect(), t[nz..].iter().cloned().collect()))
            }
            "lp" => XLp(LowPass::new(hz(op.i(2)), v(op.i(3)))),
            "hp" => XHp(HighPass::new(hz(op.i(2)), v(op.i(3)))),
            "bp" => XBp(BandPass::new(hz(op.i(2)), v(op.i(3)))),
            "bpc" => XBp(BandPass::from_corners((hz(op.i(2)), hz(op.i(3))))),
            "env" => XEnv(Envelope::new(hz(op.i(2)) as f32, hz(op.i(3)) as f32)),
            "adsr" => XAdsr(ADSR::new(us(op.i(2)), us(op.i(3)), hz(op.i(4)), us(op.i(5)))),
            // resam RATE START END data
            "resam" => XResam(MonoResampler::new(data(op, 5), op.i(2) as f64 / 4.0, op.u(3), op.u(4))),
            // wavt RATE data
            "wavt" => XWavt(MonoWav::from_track(op.i(2) as f64 / 4.0, data(op, 3))),
            // wav BITS CHANNELS RATE codes...
            "wav" => {
                let b = crate::wavs::container(op.i(2), op.i(3), op.i(4), &(5..op.n()).map(|k| op.i(k)).collect::<Vec<_>>());
                XWav(MonoWav::from_source(&mut bae_rs::debug::VecReader::new(b)))
            }
            x => panic!("HARNESS: kind {}", x),
        }
    }
    /// Whether its output is proportional to its input or its track.
    fn linear(&self) -> bool {
        match self { XSine(_) | XSaw(_) | XSquare(_) | XTri(_) | XNoise(_) | XWav(_) => false, _ => true }
    }
    /// A sample, in and out at the amplitude of the scenario.
    fn process(&mut self, x: f32) -> f32 {
        match self {
            XGain(_) => down_out(self.step(up(x))) as f32,
            _ if self.linear() => down(self.step(up(x))) as f32,
            _ => self.step(x),
        }
    }
    fn step(&mut self, x: f32) -> f32 {
        match self {
            XSine(o) => o.process(), XSaw(o) => o.process(), XSquare(o) => o.process(), XTri(o) => o.process(),
            XNoise(o) => o.process(), XZero(o) => o.process(), XResam(o) => o.process(), XWav(o) | XWavt(o) => o.process(),
            XGain(o) => o.process(x), XPass(o) => o.process(x), XDelay(o) => o.process(x), XEcho(o) => o.process(x),
            XGeneric(o) => o.process(x), XLp(o) => o.process(x), XHp(o) => o.process(x), XBp(o) => o.process(x),
            XEnv(o) => o.process(x), XAdsr(o) => o.process(x),
        }
    }
    fn dup(&self) -> Obj {
        match self {
            XSine(o) => XSine(o.clone()), XSaw(o) => XSaw(o.clone()), XSquare(o) => XSquare(o.clone()), XTri(o) => XTri(o.clone()),
            XNoise(o) => XNoise(o.clone()), XZero(o) => XZero(o.clone()), XResam(o) => XResam(o.clone()), XWav(o) => XWav(o.clone()), XWavt(o) => XWavt(o.clone()),
            XGain(o) => XGain(o.clone()), XPass(o) => XPass(o.clone()), XDelay(o) => XDelay(o.clone()), XEcho(o) => XEcho(o.clone()),
            XGeneric(o) => XGeneric(o.clone()), XLp(o) => XLp(o.clone()), XHp(o) => XHp(o.clone()), XBp(o) => XBp(o.clone()),
            XEnv(o) => XEnv(o.clone()), XAdsr(o) => XAdsr(o.clone()),
        }
    }
    fn set(&mut self, w: &str, a: &[i64]) {
        match (self, w) {
            (XSine(o), "f") => o.set_frequency(hz(a[0])),
            (XSaw(o), "f") => o.set_frequency(hz(a[0])),
            (XSquare(o), "f") => o.set_frequency(hz(a[0])),
            (XTri(o), "f") => o.set_frequency(hz(a[0])),
            (XGain(o), "a") => o.a = out_gain(v(a[0])) as f32,
            (XLp(o), "f") => o.set_central_frequency(hz(a[0])),
            (XHp(o), "f") => o.set_central_frequency(hz(a[0])),
            (XLp(o), "r") => o.set_resonance(v(a[0])),
            (XHp(o), "r") => o.set_resonance(v(a[0])),
            (XBp(o), "f") => o.set_central_frequency(hz(a[0])),
            (XBp(o), "q") => o.set_quality(v(a[0])),
            (XBp(o), "c") => o.set_corner_frequencies((hz(a[0]), hz(a[1]))),
            (XResam(o), "s") => o.set_playback_speed(a[0] as f64 / SPEED),
            (XWav(o), "s") | (XWavt(o), "s") => o.get_mut().set_playback_speed(a[0] as f64 / SPEED),
            (XAdsr(o), "rel") => o.release(),
            _ => panic!("HARNESS: set {}", w),
        }
    }
    fn get(&self, w: &str) -> Vec<i64> {
        let m = |f: f64| q(f * 1000.0, 0);
        let t = |d: Duration| vec![int(d.as_secs() as u128), d.subsec_nanos() as i64];
        match (self, w) {
            (XSine(o), "f") => vec![m(o.get_frequency())],
            (XSaw(o), "f") => vec![m(o.get_frequency())],
            (XSquare(o), "f") => vec![m(o.get_frequency())],
            (XTri(o), "f") => vec![m(o.get_frequency())],
            (XLp(o), "f") => vec![m(o.get_central_frequency())],
            (XHp(o), "f") => vec![m(o.get_central_frequency())],
            (XLp(o), "r") => vec![q(o.get_resonance(), 24)],
            (XHp(o), "r") => vec![q(o.get_resonance(), 24)],
            (XBp(o), "f") => vec![m(o.get_central_frequency())],
            (XBp(o), "q") => vec![q(o.get_quality(), 24)],
            (XBp(o), "c") => { let c = o.get_corner_frequencies(); vec![m(c.0), m(c.1)] }
            (XDelay(o), "d") => t(o.get_delay()),
            (XGain(o), "a") => vec![q(out_gain_of(o.a as f64), 24)],
            (XResam(o), "s") => vec![q(o.get_playback_speed() * SPEED, 0)],
            (XWav(o), "s") | (XWavt(o), "s") => vec![q(o.get().get_playback_speed() * SPEED, 0)],
            _ => panic!("HARNESS: get {}", w),
        }
    }
}

#[derive(Default)]
pub struct Dev { o: BTreeMap<i64, Obj>, k: BTreeMap<i64, u64> }
impl Suite for Dev {
    fn reset(&mut self) { self.o.clear(); self.k.clear(); }
    fn op(&mut self, op: &Op, out: &mut Out) {
        let id = op.i(0);
        if op.name == "new" {
            // The parameters are echoed before the object is made, except the data of formula tracks.
            let e = Ev::new("new").i("i", id).s("k", op.s(1))
                .s("d", if op.t.contains(&"F") { "F" } else { "L" })
                .l("p", op.t[2..].iter().filter(|t| **t != "L" && **t != "F").map(|t| t.parse::<i64>().unwrap_or_else(|_| panic!("HARNESS: param"))));
            let o = Obj::make(op);
            self.o.insert(id, o);
            self.k.remove(&id);
            out.put(e);
            return;
        }
        if op.name == "drop" { self.o.remove(&id); out.put(Ev::new("drop").i("i", id)); return; }
        if op.name == "clone" {
            let c = self.o.get(&id).unwrap_or_else(|| panic!("HARNESS: object")).dup();
            self.o.insert(op.i(1), c);
            self.k.remove(&op.i(1));
            out.put(Ev::new("clone").i("i", id).i("n", op.i(1)));
            return;
        }
        let o = self.o.get_mut(&id).unwrap_or_else(|| panic!("HARNESS: object"));
        let k = self.k.entry(id).or_insert(0);
        match op.name {
            // p ID x... : one sample per input
            "p" => for n in 1..op.n() {
                let x = v(op.i(n)) as f32;
                let y = o.process(x);
                *k += 1;
                out.put(Ev::new("p").i("i", id).i("x", q24(x)).i("y", q24(y)));
            },
            // g ID n : n samples with no input
            "g" => for _ in 0..op.i(1) {
                let y = o.process(0.0);
                *k += 1;
                out.put(Ev::new("p").i("i", id).i("x", 0).i("y", q24(y)));
            },
            // pf ID n seed : n samples of the formula input, continuing
            "pf" => { out.put(Ev::new("form").i("i", id).i("seed", op.i(2)).i("k", *k as i64)); for _ in 0..op.i(1) {
                let x = formula(*k, op.i(2) as u64);
                let y = o.process(x);
                *k += 1;
                out.put(Ev::new("p").i("i", id).i("x", q24(x)).i("y", q24(y)));
            } }
            // skip ID n x : n samples of a constant input, of which only the range and the last is kept
            "skip" => {
                let x = v(op.i(2)) as f32;
                let (mut lo, mut hi, mut nan, mut y) = (f32::INFINITY, f32::NEG_INFINITY, 0, 0.0f32);
                let (mut pos, mut neg) = (0i64, 0i64);
                let mut sum = 0.0f64;
                for _ in 0..op.i(1) {
                    y = o.process(x);
                    sum += y as f64;
                    if y.is_nan() { nan += 1; }
                    if y < lo { lo = y; }
                    if y > hi { hi = y; }
                    if y > 0.0 { pos += 1; }
                    if y < 0.0 { neg += 1; }
                }
                *k += op.i(1) as u64;
                // hi1: whether the highest sample is below 1 as a float, which the rounding to 2^-24 may hide
                out.put(Ev::new("skip").i("i", id).i("n", op.i(1)).i("x", q24(x)).i("lo", q24(lo)).i("hi", q24(hi))
                    .i("nan", nan).i("y", q24(y)).i("pos", pos).i("neg", neg).b("lt1", hi < 1.0).b("le1", hi <= 1.0 && lo >= -1.0)
                    .i("mean", q(sum / op.i(1).max(1) as f64, 24)));
            }
            "set" => {
                let a = (2..op.n()).map(|n| op.i(n)).collect::<Vec<_>>();
                o.set(op.s(1), &a);
                out.put(Ev::new("set").i("i", id).s("w", op.s(1)).l("v", a));
            }
            "get" => { let g = o.get(op.s(1)); out.put(Ev::new("get").i("i", id).s("w", op.s(1)).l("v", g)); }
            x => panic!("HARNESS: op {}", x),
        }
    }
}
