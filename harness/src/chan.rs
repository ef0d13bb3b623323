//! StandardChannel.
use crate::util::*;
use bae_rs::{channels::*, sounds::*, sample_format::*};
use std::sync::Arc;

/// A sound whose k-th sample is (b*k) mod 101, and which logs what's done to it:
/// [sound, 1, id] registered, [sound, 2] unregistered, [sound, 3, k, input] processed.
struct TestSound { n: i64, b: i64, cnt: i64, id: Option<usize>, muted: bool, paused: bool }
impl Sound for TestSound {
    fn toggle_pause(&mut self) { self.paused = !self.paused; }
    fn is_paused(&self) -> bool { self.paused }
    fn toggle_mute(&mut self) { self.muted = !self.muted; }
    fn is_muted(&self) -> bool { self.muted }
    fn process(&mut self, x: f32) -> f32 {
        if self.paused { return 0.0; }
        log(vec![self.n, 3, self.cnt, q4(x)]);
        let y = mix(0, self.b, self.cnt, 0.0);
        self.cnt += 1;
        if self.muted { 0.0 } else { up(y) }
    }
    fn register(&mut self, id: usize) { log(vec![self.n, 1, id as i64]); self.id = Some(id); }
    fn unregister(&mut self) { log(vec![self.n, 2]); self.id = None; }
    fn get_id(&self) -> Option<usize> { self.id }
}
/// The generator of the engine's own sounds; logs like TestSound.
struct SGen { n: i64, b: i64, cnt: i64 }
impl bae_rs::generators::Generator for SGen {
    fn process(&mut self) -> f32 {
        log(vec![self.n, 3, self.cnt, 0]);
        let y = mix(0, self.b, self.cnt, 0.0);
        self.cnt += 1; up(y)
    }
}

/// One of the engine's sounds, or the recording one.
fn sound(kind: &str, n: i64, b: i64, st: i64) -> Arc<dyn Sound> {
    let mut s: Arc<dyn Sound> = match kind {
        "test" => Arc::new(TestSound { n, b, cnt: 0, id: None, muted: false, paused: false }),
        "simple" => Arc::new(SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::from_generator(SGen { n, b, cnt: 0 })))),
        "complex" => {
            let mut c = ComplexSound::new(1.0, 1.0);
            let g = c.add_block(Arc::new(StandardBlock::from_generator(SGen { n, b, cnt: 0 })));
            let og = c.get_output_gain();
            c.add_connection(g, og);
            Arc::new(c)
        }
        x => panic!("HARNESS: sound {}", x),
    };
    toggle(&mut s, st);
    s
}
fn toggle(s: &mut Arc<dyn Sound>, st: i64) {
    let s = Arc::get_mut(s).unwrap_or_else(|| panic!("HARNESS: the sound is shared"));
    if st & 1 != 0 { s.toggle_mute(); }
    if st & 2 != 0 { s.toggle_pause(); }
}

fn channel(f: &str, gain: f64) -> Ch {
    if f == "mono" { Ch::M(StandardChannel::new(out_gain(gain))) } else { Ch::S(StandardChannel::new(out_gain(gain))) }
}
#[derive(Clone)]
enum Ch { M(StandardChannel<Mono>), S(StandardChannel<Stereo>) }
macro_rules! on { ($c:expr, $x:ident => $e:expr) => { match $c { Ch::M($x) => $e, Ch::S($x) => $e } } }

#[derive(Default)]
pub struct Chan { cs: std::collections::BTreeMap<i64, Ch>, cur: i64, kept: Vec<(i64, Arc<dyn Sound>)>, ids: std::collections::BTreeMap<i64, Vec<i64>> }
impl Chan {
    fn held(&mut self, n: i64) -> &mut Arc<dyn Sound> {
        &mut self.kept.iter_mut().find(|k| k.0 == n).unwrap_or_else(|| panic!("HARNESS: not kept")).1
    }
}
impl Suite for Chan {
    fn reset(&mut self) { self.cs.clear(); self.cur = 0; self.kept.clear(); self.ids.clear(); }
    fn op(&mut self, op: &Op, out: &mut Out) {
        let mut e = Ev::new(op.name);
        match op.name {
            "new" => {
                self.cs.clear();
                self.cur = 0;
                self.cs.insert(0, channel(op.s(0), op.f(1)));
                e = e.s("f", op.s(0)).i("g", q4(op.f(1) as f32));
            }
            // open NUMBER FORMAT GAIN : another channel; on NUMBER : turns to it
            "open" => {
                self.cur = op.i(0);
                if self.cs.insert(self.cur, channel(op.s(1), op.f(2))).is_some() { panic!("HARNESS: channel open"); }
                e = e.i("k", op.i(0)).s("f", op.s(1)).i("g", q4(op.f(2) as f32));
            }
            "on" => {
                self.cur = op.i(0);
                e = e.i("k", op.i(0));
            }
            // The channel's copy in its place.
            "copy" => { let c = self.cs[&self.cur].clone(); self.cs.insert(self.cur, c); }
            "time" => {
                let d = std::time::Duration::new(op.i(0) as u64, op.i(1) as u32);
                on!(self.cs.get_mut(&self.cur).unwrap(), c => c.set_process_time(d));
                e = e.i("sec", op.i(0)).i("ns", op.i(1));
            }
            "gain" => { on!(self.cs.get_mut(&self.cur).unwrap(), c => c.set_gain(out_gain(op.f(0)))); e = e.i("g", q4(op.f(0) as f32)); }
            // add KIND SOUND B KEEP STATE
            "add" => {
                let (n, b, st) = (op.i(1), op.i(2), if op.n() > 4 { op.i(4) } else { 0 });
                let mut s = sound(op.s(0), n, b, st);
                on!(self.cs.get_mut(&self.cur).unwrap(), c => c.add_sound(&mut s));
                let id = id_of(s.get_id());
                self.ids.entry(n).or_default().push(id);
                // In use when registered, before anything was drawn from it.
                e = e.s("k", op.s(0)).i("n", n).i("b", b).i("st", st).b("keep", op.i(3) == 1).i("id", id).ll("log", take_log());
                if op.i(3) == 1 { self.kept.push((n, s)); }
            }
            // make KIND SOUND B STATE : a sound in no channel; solo SOUND; tog SOUND MASK; join SOUND KEEP
            "make" => {
                let (n, b, st) = (op.i(1), op.i(2), op.i(3));
                self.kept.push((n, sound(op.s(0), n, b, st)));
                e = e.s("k", op.s(0)).i("n", n).i("b", b).i("st", st);
            }
            "tog" => { toggle(self.held(op.i(0)), op.i(1)); e = e.i("n", op.i(0)).i("m", op.i(1)); }
            // regs SOUND ID : someone else registers a sound, or unregisters it with -1
            "regs" => {
                let s = Arc::get_mut(self.held(op.i(0))).unwrap_or_else(|| panic!("HARNESS: the sound is shared"));
                if op.i(1) < 0 { s.unregister() } else { s.register(op.u(1)) }
                let id = id_of(s.get_id());
                take_log();
                e = e.i("n", op.i(0)).i("v", op.i(1)).i("id", id);
            }
            "solo" => {
                let s = Arc::get_mut(self.held(op.i(0))).unwrap_or_else(|| panic!("HARNESS: the sound is shared"));
                let y = down(s.process(0.0));
                take_log();
                e = e.i("n", op.i(0)).i("y", q(y, 8));
            }
            "join" => {
                let n = op.i(0);
                let at = self.kept.iter().position(|k| k.0 == n).unwrap_or_else(|| panic!("HARNESS: not kept"));
                let (_, mut s) = self.kept.remove(at);
                on!(self.cs.get_mut(&self.cur).unwrap(), c => c.add_sound(&mut s));
                let id = id_of(s.get_id());
                self.ids.entry(n).or_default().push(id);
                e = e.i("n", n).i("id", id).ll("log", take_log());
                if op.i(1) == 1 { self.kept.push((n, s)); }
            }
            // churn N : adds and removes N sounds, one after the other
            "churn" => {
                let mut ids = Vec::new();
                let (mut told, mut drawn) = (true, false);
                for _ in 0..op.i(0) {
                    let mut s: Arc<dyn Sound> = Arc::new(TestSound { n: 0, b: 1, cnt: 0, id: None, muted: false, paused: false });
                    on!(self.cs.get_mut(&self.cur).unwrap(), c => c.add_sound(&mut s));
                    let id = id_of(s.get_id());
                    drop(s);
                    on!(self.cs.get_mut(&self.cur).unwrap(), c => c.remove_sound(id as usize));
                    for v in take_log() {
                        if v[1] == 3 { drawn = true; } else if v[0] != 0 || v[1] == 1 && v[2] != id { told = false; }
                    }
                    ids.push(id);
                }
                e = e.i("n", op.i(0)).l("ids", ids).b("told", told).b("drawn", drawn);
            }
            // rem s SOUND | rem o SOUND (by the id it had first) | rem i ID
            "rem" => {
                let ids = self.ids.get(&op.i(1));
                let id = match op.s(0) {
                    "s" => *ids.unwrap_or_else(|| panic!("HARNESS: no sound")).last().unwrap(),
                    "o" => ids.unwrap_or_else(|| panic!("HARNESS: no sound"))[0],
                    _ => op.i(1),
                };
                on!(self.cs.get_mut(&self.cur).unwrap(), c => c.remove_sound(id as usize));
                e = e.i("id", id).ll("log", take_log());
            }
            // What a kept handle reports.
            "id" => {
                let s = self.kept.iter().find(|k| k.0 == op.i(0)).unwrap_or_else(|| panic!("HARNESS: not kept"));
                e = e.i("n", op.i(0)).i("id", id_of(s.1.get_id()));
            }
            "drop" => { let n = op.i(0); self.kept.retain(|k| k.0 != n); e = e.i("n", n); }
            "out" => {
                let l = match self.cs.get(&self.cur).unwrap() { Ch::M(c) => c.get_output().len(), Ch::S(c) => c.get_output().len() };
                e = e.i("len", l as i64);
            }
            "proc" => {
                on!(self.cs.get_mut(&self.cur).unwrap(), c => c.process());
                let log = take_log();
                let (mut l, mut r) = (Vec::new(), Vec::new());
                match self.cs.get(&self.cur).unwrap() {
                    Ch::M(c) => for s in c.get_output() { l.push(q(down_out(s.mono), 8)); },
                    Ch::S(c) => for s in c.get_output() { l.push(q(down_out(s.left), 8)); r.push(q(down_out(s.right), 8)); },
                }
                // Per sound: how many samples were drawn, whether any was fed other than 0, and anything but processing.
                let mut cnt: std::collections::BTreeMap<i64, (i64, i64, i64)> = Default::default();
                for v in &log {
                    let c = cnt.entry(v[0]).or_insert((0, 0, 0));
                    if v[1] == 3 { c.0 += 1; if v[3] != 0 { c.1 = 1; } } else { c.2 = 1; }
                }
                e = e.l("l", l).l("r", r).ll("draw", cnt.iter().map(|(k, c)| vec![*k, c.0, c.1, c.2]));
            }
            // passes N : N passes, the last one's output, what was drawn in all, and how many weren't like those a period before
            "passes" => {
                let n = op.i(0);
                let (mut ring, mut odd) = (vec![(Vec::new(), Vec::new()); 101], 0);
                let mut cnt: std::collections::BTreeMap<i64, (i64, i64, i64)> = Default::default();
                let mut now = (Vec::new(), Vec::new());
                for i in 0..n {
                    on!(self.cs.get_mut(&self.cur).unwrap(), c => c.process());
                    for v in take_log() {
                        let c = cnt.entry(v[0]).or_insert((0, 0, 0));
                        if v[1] == 3 { c.0 += 1; if v[3] != 0 { c.1 = 1; } } else { c.2 = 1; }
                    }
                    now = match self.cs.get(&self.cur).unwrap() {
                        Ch::M(c) => (c.get_output().iter().map(|s| q(down_out(s.mono), 8)).collect(), Vec::new()),
                        Ch::S(c) => (c.get_output().iter().map(|s| q(down_out(s.left), 8)).collect(), c.get_output().iter().map(|s| q(down_out(s.right), 8)).collect()),
                    };
                    let at = (i % 101) as usize;
                    if i > 100 && ring[at] != now { odd += 1; }
                    ring[at] = now.clone();
                }
                e = e.i("n", n).l("l", now.0).l("r", now.1).ll("draw", cnt.iter().map(|(k, c)| vec![*k, c.0, c.1, c.2])).i("odd", odd);
            }
            x => panic!("HARNESS: op {}", x),
        }
        out.put(e);
    }
}
