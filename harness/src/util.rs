//! Shared pieces: the event writer, number encodings, and the logging test blocks.
use std::cell::RefCell;
use std::fmt::Write as FW;
use std::io::Write;

/// Marks a number that is not one.
pub const NAN: i64 = 2_000_000_000;
/// Largest magnitude logged for a number.
pub const MAX: i64 = 1 << 30;

/// `v` in units of 2^-bits, rounded to the nearest and clamped.
pub fn q(v: f64, bits: i32) -> i64 {
    if v.is_nan() { return NAN; }
    let r = (v * (2f64).powi(bits)).round();
    if r >= MAX as f64 { MAX } else if r <= -(MAX as f64) { -MAX } else { r as i64 }
}
/// 32-bit float `v` in units of 2^-24.
pub fn q24(v: f32) -> i64 { q(v as f64, 24) }
/// 32-bit float `v` in units of 1/4, or NAN if it isn't a multiple of that.
pub fn q4(v: f32) -> i64 {
    let r = v as f64 * 4.0;
    if r.fract() != 0.0 || !r.is_finite() || r.abs() >= MAX as f64 { NAN } else { r as i64 }
}
/// Integer clamped into what the specification can hold.
pub fn int(v: u128) -> i64 { if v > MAX as u128 { MAX } else { v as i64 } }

pub struct Ev { s: String }
impl Ev {
    pub fn new(e: &str) -> Ev { Ev { s: format!("{{\"e\":\"{}\"", e) } }
    pub fn i(mut self, k: &str, v: i64) -> Ev { write!(self.s, ",\"{}\":{}", k, v).unwrap(); self }
    pub fn b(mut self, k: &str, v: bool) -> Ev { write!(self.s, ",\"{}\":{}", k, v).unwrap(); self }
    pub fn s(mut self, k: &str, v: &str) -> Ev {
        let v: String = v.chars().map(|c| if c.is_ascii_alphanumeric() || " _-:.,()<>=".contains(c) { c } else { '?' }).collect();
        write!(self.s, ",\"{}\":\"{}\"", k, v).unwrap(); self
    }
    pub fn l<I: IntoIterator<Item = i64>>(mut self, k: &str, v: I) -> Ev {
        write!(self.s, ",\"{}\":[", k).unwrap();
        for (n, x) in v.into_iter().enumerate() {
            if n > 0 { self.s.push(','); }
            write!(self.s, "{}", x).unwrap();
        }
        self.s.push(']'); self
    }
    pub fn ll<J: IntoIterator<Item = i64>, I: IntoIterator<Item = J>>(mut self, k: &str, v: I) -> Ev {
        write!(self.s, ",\"{}\":[", k).unwrap();
        for (n, r) in v.into_iter().enumerate() {
            if n > 0 { self.s.push(','); }
            self.s.push('[');
            for (m, x) in r.into_iter().enumerate() {
                if m > 0 { self.s.push(','); }
                write!(self.s, "{}", x).unwrap();
            }
            self.s.push(']');
        }
        self.s.push(']'); self
    }
}

pub struct Out { w: std::io::BufWriter<std::fs::File>, pub events: usize, pub scn: i64 }
impl Out {
    pub fn new(p: &str) -> Out { Out { w: std::io::BufWriter::with_capacity(1 << 16, std::fs::File::create(p).unwrap()), events: 0, scn: -1 } }
    pub fn put(&mut self, e: Ev) { self.w.write_all(e.s.as_bytes()).unwrap(); self.w.write_all(b"}\n").unwrap(); self.events += 1; }
    pub fn flush(&mut self) { self.w.flush().unwrap(); }
}

/// One line of a script.
pub struct Op<'a> { pub name: &'a str, pub t: Vec<&'a str> }
impl<'a> Op<'a> {
    pub fn i(&self, n: usize) -> i64 { self.t[n].parse().unwrap_or_else(|_| panic!("HARNESS: bad int in {} {:?}", self.name, self.t)) }
    pub fn u(&self, n: usize) -> usize { self.i(n) as usize }
    pub fn f(&self, n: usize) -> f64 { self.t[n].parse().unwrap_or_else(|_| panic!("HARNESS: bad float in {} {:?}", self.name, self.t)) }
    pub fn s(&self, n: usize) -> &'a str { self.t[n] }
    pub fn n(&self) -> usize { self.t.len() }
}

/// Something that runs the operations of one suite.
pub trait Suite {
    /// Starts a new scenario, dropping everything of the last one.
    fn reset(&mut self);
    fn op(&mut self, op: &Op, out: &mut Out);
}

thread_local! { pub static LOG: RefCell<Vec<Vec<i64>>> = RefCell::new(Vec::new()); }
pub fn log(v: Vec<i64>) { LOG.with(|l| l.borrow_mut().push(v)); }
pub fn take_log() -> Vec<Vec<i64>> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }

thread_local! { static SCALE: std::cell::Cell<[i32; 3]> = std::cell::Cell::new([0; 3]); }
/// Everything of a scenario may be played 2^k times as loud, input gains made 2^g times
/// and output gains 2^h times as large, which the specification doesn't see.
pub fn set_scale(k: i32, g: i32, h: i32) { SCALE.with(|s| s.set([k, g, h])); }
fn two(e: i32) -> f64 { (2f64).powi(e) }
fn sc() -> [i32; 3] { SCALE.with(|s| s.get()) }
/// `x` as it's given to the code under test, and as it's recorded: inside of a sound.
pub fn up(x: f32) -> f32 { (x as f64 * two(sc()[0] + sc()[1])) as f32 }
pub fn up64(x: f64) -> f64 { x * two(sc()[0] + sc()[1]) }
pub fn down64(x: f64) -> f64 { x * two(-sc()[0] - sc()[1]) }
pub fn down(x: f32) -> f64 { x as f64 * two(-sc()[0] - sc()[1]) }
/// Before the input gain, and after the output gain.
pub fn up_in(x: f32) -> f32 { (x as f64 * two(sc()[0])) as f32 }
pub fn down_out(x: f32) -> f64 { x as f64 * two(-sc().iter().sum::<i32>()) }
/// Gains.
pub fn in_gain(g: f64) -> f64 { g * two(sc()[1]) }
pub fn out_gain(g: f64) -> f64 { g * two(sc()[2]) }
pub fn in_gain_of(g: f64) -> f64 { g * two(-sc()[1]) }
pub fn out_gain_of(g: f64) -> f64 { g * two(-sc()[2]) }

/// What the test blocks compute: stateful, so running one twice or not at all
/// shows, and bounded, so that feedback doesn't leave the exact range of f32.
pub const M: f32 = 101.0;
pub fn mix(a: i64, b: i64, cnt: i64, x: f32) -> f32 {
    (a as f32 * x + (b * cnt % 101) as f32).rem_euclid(M)
}

use bae_rs::{generators::Generator, modifiers::Modifier, sounds::{Block, BlockSP, StandardBlock}};
/// A block of its own.
pub struct RawBlock { pub node: i64, pub a: i64, pub b: i64, pub cnt: i64, pub input: f32 }
impl Block for RawBlock {
    fn prime_input(&mut self, x: f32) { self.input += x; }
    fn process(&mut self) -> f32 {
        let x = down(self.input) as f32;
        let y = mix(self.a, self.b, self.cnt, x);
        log(vec![self.node, q4(x), q4(y)]);
        self.cnt += 1; self.input = 0.0; up(y)
    }
}
/// A modifier that logs what it gets and gives.
pub struct TestMod { pub node: i64, pub a: i64, pub b: i64, pub cnt: i64 }
impl Modifier for TestMod {
    fn process(&mut self, x: f32) -> f32 {
        let x = down(x) as f32;
        let y = mix(self.a, self.b, self.cnt, x);
        log(vec![self.node, q4(x), q4(y)]);
        self.cnt += 1; up(y)
    }
}
/// A generator that logs what it gives.
pub struct TestGen { pub node: i64, pub b: i64, pub cnt: i64 }
impl Generator for TestGen {
    fn process(&mut self) -> f32 {
        let y = mix(0, self.b, self.cnt, 0.0);
        log(vec![self.node, 0, q4(y)]);
        self.cnt += 1; up(y)
    }
}
pub fn make_block(kind: &str, node: i64, a: i64, b: i64) -> BlockSP {
    use std::sync::Arc;
    match kind {
        "raw" => Arc::new(RawBlock { node, a, b, cnt: 0, input: 0.0 }),
        "mod" => Arc::new(StandardBlock::from_modifier(TestMod { node, a, b, cnt: 0 })),
        "gen" => Arc::new(StandardBlock::from_generator(TestGen { node, b, cnt: 0 })),
        _ => panic!("HARNESS: block kind {}", kind),
    }
}
pub fn id_of(i: Option<usize>) -> i64 { match i { Some(n) => int(n as u128), None => -1 } }
