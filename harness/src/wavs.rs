//! WAV reading and writing, through sources and destinations that misbehave.
use crate::util::*;
use bae_rs::utils::*;
use std::io::{Error, ErrorKind, Read, Write};

/// A plain PCM WAV file.
pub fn container(bits: i64, ch: i64, rate: i64, codes: &[i64]) -> Vec<u8> {
    let w = (bits / 8) as usize;
    let mut d = Vec::new();
    for c in codes { d.extend_from_slice(&(*c as i32).to_le_bytes()[..w]); }
    let mut b = Vec::new();
    b.extend_from_slice(b"RIFF");
    b.extend_from_slice(&((36 + d.len() + d.len() % 2) as u32).to_le_bytes());
    b.extend_from_slice(b"WAVEfmt ");
    b.extend_from_slice(&16u32.to_le_bytes());
    b.extend_from_slice(&1u16.to_le_bytes());
    b.extend_from_slice(&(ch as u16).to_le_bytes());
    b.extend_from_slice(&(rate as u32).to_le_bytes());
    b.extend_from_slice(&((rate * ch * bits / 8) as u32).to_le_bytes());
    b.extend_from_slice(&((ch * bits / 8) as u16).to_le_bytes());
    b.extend_from_slice(&(bits as u16).to_le_bytes());
    b.extend_from_slice(b"data");
    b.extend_from_slice(&(d.len() as u32).to_le_bytes());
    b.extend_from_slice(&d);
    if d.len() % 2 == 1 { b.push(0); }
    b
}

/// What a source or destination does, call by call: n > 0 takes up to n bytes,
/// 0 takes none, -1 is interrupted, -2 fails. The last entry repeats.
struct Sched { s: Vec<i64>, at: usize, calls: i64, failed: i64, intr: i64 }
impl Sched {
    fn new(s: Vec<i64>) -> Sched { Sched { s, at: 0, calls: 0, failed: 0, intr: 0 } }
    fn step(&mut self, room: usize) -> std::io::Result<usize> {
        let v = self.s[self.at];
        if self.at + 1 < self.s.len() { self.at += 1; }
        self.calls += 1;
        match v {
            -1 => { self.intr += 1; Err(Error::new(ErrorKind::Interrupted, "interrupted")) }
            -2 => { self.failed += 1; Err(Error::new(ErrorKind::Other, "failed")) }
            n => Ok(room.min(n as usize)),
        }
    }
}
struct Sink { b: Vec<u8>, s: Sched, zero: i64 }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.s.calls > 200_000 { panic!("endless writing"); }
        let n = self.s.step(b.len())?;
        if n == 0 && !b.is_empty() { self.zero += 1; }
        self.b.extend_from_slice(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
struct Source { b: Vec<u8>, at: usize, s: Sched }
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.s.calls > 2_000_000 { panic!("endless reading"); }
        let n = self.s.step(b.len().min(self.b.len() - self.at))?;
        b[..n].copy_from_slice(&self.b[self.at..self.at + n]); self.at += n; Ok(n)
    }
}

#[derive(Default)]
pub struct Wavs { tracks: Vec<Vec<f32>>, file: Vec<u8>, sched: Vec<i64> }
/// Samples are logged in 2^-28, so that up to 4 in magnitude fits.
fn sample28(i: i64) -> f32 {
    if i > 1 << 60 { f32::INFINITY } else if i < -(1 << 60) { f32::NEG_INFINITY } else { (i as f64 / (1u64 << 28) as f64) as f32 }
}
fn q28(s: f32) -> i64 { q(s as f64, 28) }
impl Wavs {
    fn read(&self, e: Ev, r: std::io::Result<(Hdr, Vec<Vec<f32>>)>) -> Ev {
        match r {
            Err(_) => e.b("ok", false),
            Ok((h, t)) => { e.b("ok", true).i("ch", h.0).i("rate", h.1).i("bits", h.2).i("af", h.3).ll("t", t.iter().map(|c| c.iter().map(|s| q28(*s)).collect::<Vec<_>>())) }
        }
    }
}
struct Hdr(i64, i64, i64, i64);
macro_rules! hdr { ($h:expr) => { Hdr($h.channel_count as i64, int($h.sampling_rate as u128), $h.bits_per_sample as i64, $h.audio_format as i64) } }

impl Suite for Wavs {
    fn reset(&mut self) { self.tracks.clear(); self.file.clear(); self.sched = vec![1 << 20]; }
    fn op(&mut self, op: &Op, out: &mut Out) {
        match op.name {
            // track q28... ; beyond 2^60 stands for an infinite sample
            "track" => {
                let t: Vec<f32> = (0..op.n()).map(|k| sample28(op.i(k))).collect();
                out.put(Ev::new("track").l("s", t.iter().map(|s| q28(*s))));
                self.tracks.push(t);
            }
            // ftrack n seed : formula track, for long ones
            "ftrack" => {
                let t: Vec<f32> = (0..op.i(0) as u64).map(|k| crate::dev::formula(k, op.i(1) as u64)).collect();
                out.put(Ev::new("track").l("s", t.iter().map(|s| q28(*s))));
                self.tracks.push(t);
            }
            "sched" => { self.sched = (0..op.n()).map(|k| op.i(k)).collect(); out.put(Ev::new("sched").l("s", self.sched.iter().cloned())); }
            // write BITS CLIP : writes the tracks; the file becomes what arrived
            "write" => {
                let mut d = Sink { b: Vec::new(), s: Sched::new(self.sched.clone()), zero: 0 };
                let r = write_wav(self.tracks.clone(), op.i(0) as u16, &mut d, op.i(1) == 1);
                out.put(Ev::new("write").i("bits", op.i(0)).b("clip", op.i(1) == 1).b("ok", r.is_ok())
                    .i("failed", d.s.failed).i("zero", d.zero).l("b", d.b.iter().map(|b| *b as i64)));
                self.file = d.b;
            }
            "clear" => { self.tracks.clear(); out.put(Ev::new("clear")); }
            // file BITS CH RATE codes... : the file becomes a made one
            "file" => {
                self.file = container(op.i(0), op.i(1), op.i(2), &(3..op.n()).map(|k| op.i(k)).collect::<Vec<_>>());
                out.put(Ev::new("file").l("b", self.file.iter().map(|b| *b as i64)));
            }
            // bytes b... : the file becomes these bytes
            "bytes" => { self.file = (0..op.n()).map(|k| op.i(k) as u8).collect(); out.put(Ev::new("file").l("b", self.file.iter().map(|b| *b as i64))); }
            // read N : reads the first N bytes of the file (-1: all) by the schedule
            "read" => {
                let n = if op.i(0) < 0 { self.file.len() } else { op.u(0).min(self.file.len()) };
                let mut s = Source { b: self.file[..n].to_vec(), at: 0, s: Sched::new(self.sched.clone()) };
                let r = read_wav(&mut s).map(|(h, t)| (hdr!(h), t));
                let e = Ev::new("read").i("n", n as i64).i("failed", s.s.failed).i("got", s.at as i64);
                let e = self.read(e, r);
                out.put(e);
            }
            // vread N : the same through the engine's in-memory reader
            "vread" => {
                let n = if op.i(0) < 0 { self.file.len() } else { op.u(0).min(self.file.len()) };
                let mut s = bae_rs::debug::VecReader::new(self.file[..n].to_vec());
                let r = read_wav(&mut s).map(|(h, t)| (hdr!(h), t));
                let e = Ev::new("read").i("n", n as i64).i("failed", 0).i("got", n as i64);
                let e = self.read(e, r);
                out.put(e);
            }
            // chunked VecReader: vr SIZES... : reads the file through the in-memory reader with buffers of these sizes
            "vr" => {
                let mut s = bae_rs::debug::VecReader::new(self.file.clone());
                for k in 0..op.n() {
                    let mut b = vec![255u8; op.u(k)];
                    for (i, x) in b.iter_mut().enumerate() { *x = 200 + (i % 50) as u8; }
                    let before = b.clone();
                    let r = s.read(&mut b);
                    let n = r.as_ref().map(|n| *n as i64).unwrap_or(-1);
                    let cut = (n.max(0) as usize).min(b.len());
                    out.put(Ev::new("vr").i("size", op.i(k)).i("n", n).l("b", b[..cut].iter().map(|x| *x as i64)).b("rest", b[cut..] == before[cut..]));
                }
            }
            // long BITS CH N SEED CLIP EVERY : writes a long formula track, in which every so many-th sample, if any, is
            // beyond full scale, and reads it back; per channel, how the samples differ, and how those do from full scale
            "long" => {
                let (bits, ch, n) = (op.i(0), op.i(1), op.i(2) as u64);
                let tracks: Vec<Vec<f32>> = (0..ch as u64).map(|c| (0..n).map(|k| {
                    let x = crate::dev::formula(k, op.i(3) as u64 + c);
                    if op.i(5) > 0 && k % op.i(5) as u64 == op.i(5) as u64 - 1 { x * 5.0 + if x < 0.0 { -1.01 } else { 1.01 } } else { x }
                }).collect()).collect();
                let mut b = Vec::new();
                let w = write_wav(tracks.clone(), bits as u16, &mut b, op.i(4) == 1);
                let head: Vec<i64> = b.iter().take(44).map(|x| *x as i64).collect();
                let r = if w.is_ok() { read_wav(&mut std::io::Cursor::new(&b)) } else { Err(std::io::ErrorKind::Other.into()) };
                let mut lens = Vec::new(); let mut err = Vec::new(); let mut over = Vec::new();
                let mut hd = Hdr(0, 0, 0, 0);
                let ok = r.is_ok();
                if let Ok((h, t)) = r {
                    hd = hdr!(h);
                    for (c, x) in t.iter().enumerate() {
                        lens.push(x.len() as i64);
                        let none = Vec::new();
                        let pairs = || x.iter().zip(tracks.get(c).unwrap_or(&none));
                        err.push(pairs().filter(|(_, b)| b.abs() <= 1.0).map(|(a, b)| q((*a - *b).abs() as f64, 28)).max().unwrap_or(0));
                        over.push(pairs().filter(|(_, b)| b.abs() > 1.0).map(|(a, b)| q((*a - b.signum()).abs() as f64, 28)).max().unwrap_or(0));
                    }
                }
                out.put(Ev::new("long").i("bits", bits).i("ch", ch).i("n", n as i64).b("wok", w.is_ok()).b("rok", ok).i("size", b.len() as i64).l("head", head)
                    .i("hch", hd.0).i("hrate", hd.1).i("hbits", hd.2).i("haf", hd.3).l("lens", lens).l("err", err).b("clip", op.i(4) == 1).l("over", over));
            }
            x => panic!("HARNESS: op {}", x),
        }
    }
}
