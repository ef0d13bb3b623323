//! PCM codecs, sample formats and panning.
use crate::util::*;
use bae_rs::sample_format::*;

/// An accumulator of each format: by plain operators, and by assigning ones.
#[derive(Default)]
pub struct Fmts { mono: (Mono, Mono), stereo: (Stereo, Stereo) }

fn v(i: i64) -> f64 { i as f64 / (1u64 << 24) as f64 }
/// Samples of codes are logged in 2^-29, in which 1 still fits.
fn q29(s: f32) -> i64 { q(s as f64, 29) }
/// The channels of a sample.
trait Chs: SampleFormat + Copy { fn chs(self) -> Vec<f32>; fn mk(c: &[f32]) -> Self; }
impl Chs for Mono { fn chs(self) -> Vec<f32> { vec![self.mono] } fn mk(c: &[f32]) -> Self { Mono { mono: c[0] } } }
impl Chs for Stereo { fn chs(self) -> Vec<f32> { vec![self.left, self.right] } fn mk(c: &[f32]) -> Self { Stereo { left: c[0], right: c[1] } } }

fn qs(c: Vec<f32>) -> Vec<i64> { c.into_iter().map(q24).collect() }

/// Applies an operator in its plain and its assigning form.
fn arith<T: Chs>(o: &str, a: T, b: T, s: f64) -> (Vec<f32>, Vec<f32>) {
    let mut c = a;
    let r = match o {
        "add" => { c += b; a + b }
        "sub" => { c -= b; a - b }
        "mul" => { c *= b; a * b }
        "muls" => { c *= s as f32; a * s as f32 }
        "mulm" => { c *= s; a * s }
        "neg" => { c = -c; -a }
        x => panic!("HARNESS: operator {}", x),
    };
    (r.chs(), c.chs())
}
/// One operator on an accumulator.
fn accum<T: Chs>(o: &str, t: &mut (T, T), b: T, s: f64) -> (Vec<i64>, Vec<i64>) {
    match o {
        "set" => { *t = (b, b); }
        "add" => { t.0 = t.0 + b; t.1 += b; }
        "sub" => { t.0 = t.0 - b; t.1 -= b; }
        "mul" => { t.0 = t.0 * b; t.1 *= b; }
        "muls" => { t.0 = t.0 * s as f32; t.1 *= s as f32; }
        "mulm" => { t.0 = t.0 * s; t.1 *= s; }
        "neg" => { t.0 = -t.0; t.1 = -t.1; }
        x => panic!("HARNESS: operator {}", x),
    }
    (qs(t.0.chs()), qs(t.1.chs()))
}
/// Conversions of a sample; the results in units of `u`.
fn conv<T: Chs>(e: Ev, s: f32, u: f64) -> Ev {
    let a = T::from_sample(up(s));
    let b: T = up(s).into();
    let m = a.into_sample();
    let n: f32 = b.into();
    let d = |c: Vec<f32>| c.into_iter().map(|y| q(down(y) as f64 / u, 0)).collect::<Vec<_>>();
    e.l("fs", d(a.chs())).l("from", d(b.chs())).i("is", q(down(m) as f64 / u, 0)).i("into", q(down(n) as f64 / u, 0)).i("num", T::num_samples() as i64).l("def", qs(T::default().chs()))
}
fn codes<T: Chs>(e: Ev, bits: i64, c: &[i64]) -> Ev {
    macro_rules! go { ($t:ty) => {{
        let r = T::try_from(c.iter().map(|x| *x as $t).collect::<Vec<$t>>());
        match r {
            Err(_) => e.b("ok", false),
            Ok(s) => { let b: Vec<$t> = s.into(); e.b("ok", true).l("s", s.chs().into_iter().map(q29)).l("back", b.iter().map(|x| *x as i64)) }
        }
    }}}
    match bits { 8 => go!(u8), 16 => go!(i16), 24 => go!(i32), _ => panic!("HARNESS: bits") }
}

impl Suite for Fmts {
    fn reset(&mut self) { *self = Fmts::default(); }
    fn op(&mut self, op: &Op, out: &mut Out) {
        match op.name {
            // code BITS FROM TO STEP : decodes and re-encodes codes
            "code" => {
                let bits = op.i(0);
                let mut c = op.i(1);
                while c <= op.i(2) {
                    let (s, back, sb, by) = match bits {
                        8 => { let s = sample_from_u8(c as u8); (s, sample_to_u8(s) as i64, sample_from_u8_bytes([c as u8]), sample_to_u8_bytes(s).to_vec()) }
                        16 => { let s = sample_from_i16(c as i16); (s, sample_to_i16(s) as i64, sample_from_i16_bytes([c as u8, (c >> 8) as u8]), sample_to_i16_bytes(s).to_vec()) }
                        24 => { let s = sample_from_i24(c as i32); (s, sample_to_i24(s) as i64, sample_from_i24_bytes([c as u8, (c >> 8) as u8, (c >> 16) as u8]), sample_to_i24_bytes(s).to_vec()) }
                        _ => panic!("HARNESS: bits"),
                    };
                    out.put(Ev::new("code").i("bits", bits).i("c", c).i("s", q29(s)).i("back", back).i("sb", q29(sb)).l("by", by.into_iter().map(|b| b as i64)));
                    c += op.i(3);
                }
            }
            // upper BITS24CODE BYTE : a 24-bit code whose upper byte holds something
            "upper" => {
                let c = ((op.i(0) & 0xff_ffff) | (op.i(1) << 24)) as u32 as i32;
                let s = sample_from_i24(c);
                out.put(Ev::new("upper").i("c", op.i(0)).i("up", op.i(1)).i("s", q29(s)));
            }
            // runs : every 24-bit code; runs of codes that behave alike
            "runs" => {
                let (lo, hi) = (-(1i64 << 23), (1i64 << 23) - 1);
                let mut start = lo;
                let mut cur: Option<(i64, bool, bool, bool, bool)> = None;
                let mut prev = f32::NEG_INFINITY;
                for c in lo..=hi + 1 {
                    let k = if c <= hi {
                        let s = sample_from_i24(c as i32);
                        let by = sample_to_i24_bytes(s);
                        let b = sample_to_i24(s);
                        let k = (b as i64 - c, s > prev,
                            sample_from_i24_bytes([c as u8, (c >> 8) as u8, (c >> 16) as u8]) == s,
                            by == [b as u8, (b >> 8) as u8, (b >> 16) as u8],
                            (sample_from_i24((c & 0xff_ffff) as i32) == s) && (sample_from_i24(((c & 0xff_ffff) | 0x5a00_0000) as i32) == s));
                        prev = s;
                        Some(k)
                    } else { None };
                    if k != cur {
                        if let Some(u) = cur { out.put(Ev::new("run").i("from", start).i("to", c - 1).i("d", u.0).b("inc", u.1).b("from_bytes", u.2).b("to_bytes", u.3).b("upper", u.4)); }
                        start = c; cur = k;
                        if out.events > 100_000 { return; }
                    }
                }
            }
            // enc BITS q29... : encodes samples
            "enc" => for n in 1..op.n() {
                let s = (op.i(n) as f64 / (1u64 << 29) as f64) as f32;
                let (c, by) = match op.i(0) {
                    8 => (sample_to_u8(s) as i64, sample_to_u8_bytes(s).to_vec()),
                    16 => (sample_to_i16(s) as i64, sample_to_i16_bytes(s).to_vec()),
                    _ => (sample_to_i24(s) as i64, sample_to_i24_bytes(s).to_vec()),
                };
                out.put(Ev::new("enc").i("bits", op.i(0)).i("s", q29(s)).i("c", c).l("by", by.into_iter().map(|b| b as i64)));
            },
            // op OPERATOR FORMAT a... b... s
            "op" => {
                let c = |k: usize| v(op.i(k)) as f32;
                let (r, a, b, ra) = if op.s(1) == "mono" {
                    let (r, ra) = arith(op.s(0), Mono::mk(&[c(2)]), Mono::mk(&[c(3)]), v(op.i(4)));
                    (r, vec![c(2)], vec![c(3)], ra)
                } else {
                    let (r, ra) = arith(op.s(0), Stereo::mk(&[c(2), c(3)]), Stereo::mk(&[c(4), c(5)]), v(op.i(6)));
                    (r, vec![c(2), c(3)], vec![c(4), c(5)], ra)
                };
                let s = v(op.i(op.n() - 1));
                out.put(Ev::new("op").s("o", op.s(0)).s("f", op.s(1)).l("a", qs(a)).l("b", qs(b)).i("s", q(s, 24)).l("r", qs(r)).l("ra", qs(ra)));
            }
            // make q24 q24 : samples made from nothing and from their channels
            "make" => {
                let (a, b) = (v(op.i(0)) as f32, v(op.i(1)) as f32);
                out.put(Ev::new("make").s("f", "mono").l("c", [op.i(0)]).l("new", qs(Mono::new().chs())).l("r", qs(Mono::from(a).chs())));
                out.put(Ev::new("make").s("f", "stereo").l("c", [op.i(0), op.i(1)]).l("new", qs(Stereo::new().chs())).l("r", qs(Stereo::from(a, b).chs())));
            }
            // acc OPERATOR FORMAT b... s : on the accumulator of that format; set replaces it
            "acc" => {
                let c = |k: usize| v(op.i(k)) as f32;
                let s = v(op.i(op.n() - 1));
                let (b, (r, ra)) = if op.s(1) == "mono" {
                    (vec![c(2)], accum(op.s(0), &mut self.mono, Mono::mk(&[c(2)]), s))
                } else {
                    (vec![c(2), c(3)], accum(op.s(0), &mut self.stereo, Stereo::mk(&[c(2), c(3)]), s))
                };
                out.put(Ev::new("acc").s("o", op.s(0)).s("f", op.s(1)).l("b", qs(b)).i("s", q(s, 24)).l("r", r).l("ra", ra));
            }
            // far OP FORMAT P Q a.. b.. s : whole numbers times 2^P and (a factor) 2^Q; the result in units of what it should be a multiple of
            "far" => {
                let n = if op.s(1) == "mono" { 1 } else { 2 };
                let times = op.s(0) == "mul" || op.s(0) == "muls" || op.s(0) == "mulm";
                let (up, uq) = ((2f64).powi(op.i(2) as i32), (2f64).powi(op.i(3) as i32));
                let a: Vec<f32> = (0..n).map(|k| (op.i(4 + k) as f64 * up) as f32).collect();
                let b: Vec<f32> = (0..n).map(|k| (op.i(4 + n + k) as f64 * if times { uq } else { up }) as f32).collect();
                let s = op.i(4 + 2 * n) as f64 * uq;
                let (r, ra) = if n == 1 { arith(op.s(0), Mono::mk(&a), Mono::mk(&b), s) } else { arith(op.s(0), Stereo::mk(&a), Stereo::mk(&b), s) };
                let u = |c: Vec<f32>| c.into_iter().map(|x| q(x as f64 / if times { up * uq } else { up }, 0)).collect::<Vec<_>>();
                let ints = |from: usize| (from..from + n).map(|k| op.i(k)).collect::<Vec<_>>();
                out.put(Ev::new("far").s("o", op.s(0)).s("f", op.s(1)).i("pw", op.i(2)).i("qw", op.i(3)).l("a", ints(4)).l("b", ints(4 + n)).i("s", op.i(4 + 2 * n)).l("r", u(r)).l("ra", u(ra)));
            }
            // scale FORMAT P Q : a sample of 2^P times a double of 2^Q, in both forms, as powers of two
            "scale" => {
                let (p, z) = (op.i(1) as i32, op.i(2) as i32);
                let s = (2f64).powi(p) as f32; let g = (2f64).powi(z);
                fn go<T: Chs>(s: f32, g: f64) -> (Vec<f32>, Vec<f32>) {
                    let c: Vec<f32> = (0..T::num_samples()).map(|k| if k % 2 == 0 { s } else { -s }).collect();
                    let a = T::mk(&c); let mut b = a; b *= g; ((a * g).chs(), b.chs())
                }
                let (r, ra) = if op.s(0) == "mono" { go::<Mono>(s, g) } else { go::<Stereo>(s, g) };
                // The result in units of its expected magnitude.
                let u = |c: Vec<f32>| c.into_iter().map(|x| q(x as f64 / (2f64).powi(p + z), 20)).collect::<Vec<_>>();
                out.put(Ev::new("scale").s("f", op.s(0)).i("pw", p as i64).i("qw", z as i64).l("r", u(r)).l("ra", u(ra)));
            }
            // conv FORMAT q24
            "conv" => {
                let s = v(op.i(1)) as f32;
                let e = Ev::new("conv").s("f", op.s(0)).i("s", q24(s));
                out.put(if op.s(0) == "mono" { conv::<Mono>(e, s, v(1)) } else { conv::<Stereo>(e, s, v(1)) });
            }
            // farconv FORMAT P a : a * 2^P, in units of 2^(P - 16)
            "farconv" => {
                let u = (2f64).powi(op.i(1) as i32);
                let s = (op.i(2) as f64 * u) as f32;
                let e = Ev::new("conv").s("f", op.s(0)).i("s", op.i(2) << 16);
                let u = u / 65536.0;
                out.put(if op.s(0) == "mono" { conv::<Mono>(e, s, u) } else { conv::<Stereo>(e, s, u) });
            }
            // codes FORMAT BITS c...
            "codes" => {
                let c: Vec<i64> = (2..op.n()).map(|k| op.i(k)).collect();
                let e = Ev::new("codes").s("f", op.s(0)).i("bits", op.i(1)).l("c", c.iter().cloned());
                out.put(if op.s(0) == "mono" { codes::<Mono>(e, op.i(1), &c) } else { codes::<Stereo>(e, op.i(1), &c) });
            }
            // pan FORMAT PRECISION sample place, both in 2^-24
            "pan" => {
                let (x, g) = (v(op.i(2)) as f32, v(op.i(3)));
                let s = up(x);
                let c: Vec<f32> = match (op.s(0), op.s(1)) {
                    ("stereo", "f32") => <Stereo as Panner<f32>>::to_sample_format(s, g as f32).chs(),
                    ("stereo", "f64") => <Stereo as Panner<f64>>::to_sample_format(s, g).chs(),
                    ("mono", "f32") => <Mono as Panner<f32>>::to_sample_format(s, g as f32).chs(),
                    ("mono", "f64") => <Mono as Panner<f64>>::to_sample_format(s, g).chs(),
                    x => panic!("HARNESS: pan {:?}", x),
                };
                out.put(Ev::new("pan").s("f", op.s(0)).s("pr", op.s(1)).i("s", q24(x)).i("g", q(g, 24)).l("c", qs(c.into_iter().map(|y| down(y) as f32).collect())));
            }
            x => panic!("HARNESS: op {}", x),
        }
    }
}
