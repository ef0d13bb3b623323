//! Normalising, units and interpolation.
use crate::util::*;
use bae_rs::utils::*;
use std::time::Duration;

#[derive(Default)]
pub struct Misc {}
fn v(i: i64) -> f64 { i as f64 / (1u64 << 24) as f64 }

impl Suite for Misc {
    fn reset(&mut self) {}
    fn op(&mut self, op: &Op, out: &mut Out) {
        match op.name {
            // norm MDB SHIFT L q24... | norm MDB SHIFT F n seed q24offset ; the samples are scaled by 2^SHIFT going in
            "norm" => {
                let sc = (2f64).powi(op.i(1) as i32);
                let t: Vec<f32> = match op.s(2) {
                    "L" => (3..op.n()).map(|k| (v(op.i(k)) * sc) as f32).collect(),
                    _ => (0..op.i(3) as u64).map(|k| ((crate::dev::formula(k, op.i(4) as u64) as f64 + v(op.i(5))) * sc) as f32).collect(),
                };
                let db = op.i(0) as f64 / 1000.0;
                let mut y = t.clone();
                normalize(db, &mut y);
                let mut z = y.clone();
                normalize(db, &mut z);
                // Inputs are logged without the scaling, which the result doesn't depend on.
                out.put(Ev::new("norm").i("db", op.i(0)).l("t", t.iter().map(|s| q(*s as f64 / sc, 24)))
                    .l("y", y.iter().map(|s| q24(*s))).l("z", z.iter().map(|s| q24(*s))));
            }
            // normlong MDB N SEED OFFSET FROM AT PEAK : a long track, offset from a sample on and with a peak at one; in
            // pieces, first what goes in and then with what comes out, once and twice
            "normlong" => {
                let (n, from, at) = (op.u(1), op.u(4), op.u(5));
                let t: Vec<f32> = (0..n).map(|k| if k == at { v(op.i(6)) as f32 } else {
                    crate::dev::formula(k as u64, op.i(2) as u64) + if k >= from { v(op.i(3)) as f32 } else { 0.0 }
                }).collect();
                let db = op.i(0) as f64 / 1000.0;
                let mut y = t.clone();
                normalize(db, &mut y);
                let mut z = y.clone();
                normalize(db, &mut z);
                out.put(Ev::new("nlong").i("db", op.i(0)).i("n", n as i64).i("ny", y.len() as i64).i("nz", z.len() as i64));
                let piece = |x: &[f32], k: usize| x[k.min(x.len())..(k + 100).min(x.len())].iter().map(|s| q24(*s)).collect::<Vec<_>>();
                for k in (0..n).step_by(100) { out.put(Ev::new("nin").l("t", piece(&t, k))); }
                for k in (0..n).step_by(100) { out.put(Ev::new("nout").l("t", piece(&t, k)).l("y", piece(&y, k)).l("z", piece(&z, k))); }
                out.put(Ev::new("nend"));
            }
            // s2s SAMPLES
            "s2s" => {
                let d = samples_to_seconds(op.u(0));
                let n = seconds_to_samples(d);
                out.put(Ev::new("s2s").i("n", op.i(0)).i("sec", int(d.as_secs() as u128)).i("ns", d.subsec_nanos() as i64).i("back", int(n as u128)));
            }
            // big HOURS SAMPLES : sample counts beyond what fits the log; the difference after going there and back
            "big" => {
                let n = op.u(0) * 3600 * 48_000 + op.u(1);
                let d = samples_to_seconds(n);
                let secs = op.i(0) as u64 * 3600;
                let e = Ev::new("big").i("h", op.i(0)).i("n", op.i(1)).i("d", (seconds_to_samples(d) as i64 - n as i64).max(-MAX).min(MAX));
                let rest = d.checked_sub(Duration::from_secs(secs));
                out.put(e.b("ok", rest.is_some()).i("sec", rest.map_or(0, |r| int(r.as_secs() as u128))).i("ns", rest.map_or(0, |r| r.subsec_nanos() as i64)));
            }
            "dur" => {
                let n = seconds_to_samples(Duration::new(op.i(0) as u64, op.i(1) as u32));
                out.put(Ev::new("dur").i("sec", op.i(0)).i("ns", op.i(1)).i("n", int(n as u128)));
            }
            // db MDB TWENTIES : to linear (in 2^-24 and in 2^-10) and back (in 1e-6 dB); some twenties
            // of dB further, which are factors of 10 that the specification doesn't see
            "db" => {
                let d = if op.n() > 1 { op.i(1) } else { 0 };
                let g = db_to_linear(op.i(0) as f64 / 1000.0 + 20.0 * d as f64);
                let (x, back) = (g * 10f64.powi(-d as i32), linear_to_db(g) - 20.0 * d as f64);
                out.put(Ev::new("db").i("db", op.i(0)).i("d", d).i("g24", q(x, 24)).i("g10", q(x, 10)).i("back", q(back * 1e6, 0)));
            }
            // lin q24 TENS : to decibels (in 1e-6 dB) and back, some factors of 10 further
            "lin" => {
                let t = if op.n() > 1 { op.i(1) } else { 0 };
                let d = linear_to_db(v(op.i(0)) * 10f64.powi(t as i32));
                out.put(Ev::new("lin").i("g", op.i(0)).i("d", t).i("db", q((d - 20.0 * t as f64) * 1e6, 0)).i("back", q(db_to_linear(d) * 10f64.powi(-t as i32), 24)));
            }
            // lerp PRECISION x x1 x2 y1 y2, in 2^-24
            "lerp" => {
                let p = |k: usize| v(op.i(k));
                let (l, c) = if op.s(0) == "f32" {
                    let f = |k: usize| up(p(k) as f32);
                    (lerp(f(1), f(2), f(3), f(4), f(5)) as f64, clerp(f(1), f(2), f(3), f(4), f(5)) as f64)
                } else {
                    let p = |k: usize| up64(p(k));
                    (lerp(p(1), p(2), p(3), p(4), p(5)), clerp(p(1), p(2), p(3), p(4), p(5)))
                };
                out.put(Ev::new("lerp").s("pr", op.s(0)).l("a", (1..6).map(|k| op.i(k))).i("l", q(down64(l), 20)).i("c", q(down64(c), 20)));
            }
            // near PRECISION a b e, in 2^-24 : whether a and b differ by less than e
            "near" => {
                let p = |k: usize| v(op.i(k));
                let r = if op.s(0) == "f32" { bae_rs::debug::float_equal(p(1) as f32, p(2) as f32, p(3) as f32, f32::abs) }
                        else { bae_rs::debug::float_equal(p(1), p(2), p(3), f64::abs) };
                out.put(Ev::new("near").l("a", (1..4).map(|k| op.i(k))).b("r", r));
            }
            x => panic!("HARNESS: op {}", x),
        }
    }
}
