//! ComplexSound, SimpleSound and StandardBlock.
use crate::util::*;
use bae_rs::sounds::*;
use std::sync::Arc;

/// run N x : N passes, of which is known how often each block ran, and whether all returned silence.
fn many<F: FnMut(f32) -> f32>(e: Ev, op: &Op, mut f: F) -> Ev {
    let x = op.f(1) as f32;
    let mut runs: std::collections::BTreeMap<i64, i64> = Default::default();
    let mut silent = true;
    for _ in 0..op.i(0) {
        if f(up_in(x)) != 0.0 { silent = false; }
        for c in take_log() { *runs.entry(c[0]).or_insert(0) += 1; }
    }
    e.i("x", q4(x)).i("n", op.i(0)).b("silent", silent).ll("runs", runs.iter().map(|(k, c)| vec![*k, *c]))
}

#[derive(Default)]
pub struct Graph { s: Option<ComplexSound>, nodes: Vec<GraphNode> }
impl Graph {
    fn state(&self, e: Ev) -> Ev {
        let s = self.s.as_ref().unwrap();
        let ord = s.get_nodes().iter().map(|n| self.nodes.iter().position(|m| m == n).map_or(-1, |p| p as i64)).collect::<Vec<_>>();
        e.l("ord", ord).b("p", s.is_paused()).b("m", s.is_muted()).i("id", id_of(s.get_id()))
    }
}
impl Suite for Graph {
    fn reset(&mut self) { self.s = None; self.nodes.clear(); }
    fn op(&mut self, op: &Op, out: &mut Out) {
        let mut e = Ev::new(op.name);
        match op.name {
            "new" => {
                let s = ComplexSound::new(in_gain(op.f(0)), out_gain(op.f(1)));
                self.nodes = vec![s.get_input_gain(), s.get_output_gain()];
                self.s = Some(s);
                e = e.i("ig", q4(op.f(0) as f32)).i("og", q4(op.f(1) as f32));
            }
            "blk" => {
                let s = self.s.as_mut().unwrap();
                let n = s.add_block(make_block(op.s(0), self.nodes.len() as i64, op.i(1), op.i(2)));
                self.nodes.push(n);
                e = e.s("k", op.s(0)).i("a", op.i(1)).i("b", op.i(2));
            }
            "con" | "dis" => {
                let (a, b) = (self.nodes[op.u(0)], self.nodes[op.u(1)]);
                let s = self.s.as_mut().unwrap();
                if op.name == "con" { s.add_connection(a, b) } else { s.remove_connection(a, b) }
                e = e.i("a", op.i(0)).i("b", op.i(1));
            }
            "pause" => self.s.as_mut().unwrap().toggle_pause(),
            "mute" => self.s.as_mut().unwrap().toggle_mute(),
            "reg" => { self.s.as_mut().unwrap().register(op.u(0)); e = e.i("v", op.i(0)); }
            "unreg" => self.s.as_mut().unwrap().unregister(),
            "proc" => {
                let x = op.f(0) as f32;
                let y = self.s.as_mut().unwrap().process(up_in(x));
                e = e.i("x", q4(x)).i("y", q4(down_out(y) as f32)).ll("calls", take_log());
            }
            // The sound's copy in its place.
            "copy" => { let c = self.s.as_ref().unwrap().clone(); self.s = Some(c); }
            // A copy of its own, whose connections, states and id change.
            "twin" => {
                let mut c = self.s.as_ref().unwrap().clone();
                let n = c.add_block(make_block("raw", 99, 1, 1));
                let (a, b) = (self.nodes[op.u(0) % self.nodes.len()], self.nodes[op.u(1) % self.nodes.len()]);
                c.add_connection(n, a);
                c.add_connection(a, b);
                c.remove_connection(b, a);
                c.toggle_mute();
                c.toggle_pause();
                if c.get_id().is_some() { c.unregister() } else { c.register(77) }
                e = e.b("ok", c.is_muted() != self.s.as_ref().unwrap().is_muted() && c.is_paused() != self.s.as_ref().unwrap().is_paused()
                    && c.get_id().is_some() != self.s.as_ref().unwrap().get_id().is_some() && c.get_nodes().len() == self.nodes.len() + 1);
            }
            "run" => { let s = self.s.as_mut().unwrap(); e = many(e, op, |x| s.process(x)); }
            x => panic!("HARNESS: op {}", x),
        }
        let e = self.state(e);
        out.put(e);
    }
}

#[derive(Default)]
pub struct Simple { s: Option<SimpleSound>, n: i64 }
impl Suite for Simple {
    fn reset(&mut self) { self.s = None; self.n = 0; }
    fn op(&mut self, op: &Op, out: &mut Out) {
        let mut e = Ev::new(op.name);
        if op.name == "new" {
            self.n = 0;
            self.s = Some(SimpleSound::new(in_gain(op.f(0)), out_gain(op.f(1)), make_block(op.s(2), 0, op.i(3), op.i(4))));
            e = e.i("ig", q4(op.f(0) as f32)).i("og", q4(op.f(1) as f32)).s("k", op.s(2)).i("a", op.i(3)).i("b", op.i(4));
        } else {
            let s = self.s.as_mut().unwrap();
            match op.name {
                "add" => {
                    self.n += 1;
                    s.add_modifier::<u8>(make_block(op.s(0), self.n, op.i(1), op.i(2)));
                    e = e.ll("l", vec![vec![op.i(1), op.i(2), (op.s(0) == "gen") as i64]]);
                }
                "ext" => {
                    let mut v = Vec::new();
                    let mut l = Vec::new();
                    for c in op.t.chunks(3) {
                        self.n += 1;
                        let (a, b) = (c[1].parse().unwrap(), c[2].parse().unwrap());
                        v.push(make_block(c[0], self.n, a, b));
                        l.push(vec![a, b, (c[0] == "gen") as i64]);
                    }
                    s.extend_modifiers(v);
                    e = e.ll("l", l);
                }
                "ig" => { s.set_input_gain(in_gain(op.f(0))); e = e.i("v", q4(op.f(0) as f32)); }
                "og" => { s.set_output_gain(out_gain(op.f(0))); e = e.i("v", q4(op.f(0) as f32)); }
                "pause" => s.toggle_pause(),
                "mute" => s.toggle_mute(),
                "reg" => { s.register(op.u(0)); e = e.i("v", op.i(0)); }
                "unreg" => s.unregister(),
                "proc" => {
                    let x = op.f(0) as f32;
                    let y = s.process(up_in(x));
                    e = e.i("x", q4(x)).i("y", q4(down_out(y) as f32)).ll("calls", take_log());
                }
                "copy" => *s = s.clone(),
                "twin" => {
                    let mut c = s.clone();
                    c.add_modifier::<u8>(make_block("raw", 99, 1, 1));
                    c.set_input_gain(in_gain(op.f(0)));
                    c.set_output_gain(out_gain(op.f(1)));
                    c.toggle_mute();
                    c.toggle_pause();
                    if c.get_id().is_some() { c.unregister() } else { c.register(77) }
                    e = e.b("ok", c.is_muted() != s.is_muted() && c.is_paused() != s.is_paused() && c.get_id().is_some() != s.get_id().is_some()
                        && c.get_input_gain() == in_gain(op.f(0)) && c.get_output_gain() == out_gain(op.f(1)));
                }
                "run" => e = many(e, op, |x| s.process(x)),
                x => panic!("HARNESS: op {}", x),
            }
        }
        let s = self.s.as_ref().unwrap();
        out.put(e.i("rig", q4(in_gain_of(s.get_input_gain()) as f32)).i("rog", q4(out_gain_of(s.get_output_gain()) as f32))
            .b("p", s.is_paused()).b("m", s.is_muted()).i("id", id_of(s.get_id())));
    }
}

/// Log entries: 1 generator, 2 modifier, 3 interactor.
#[derive(Default)]
pub struct Blk { b: Option<StandardBlock>, product: bool }
impl Blk {
    fn inter(kind: &str) -> Inter {
        match kind {
            "def" => StandardBlock::default_interactor(),
            "gp" => StandardBlock::generator_passthrough(),
            "mp" => StandardBlock::modifier_passthrough(),
            // Distinguishes its arguments, and how often it's been called.
            _ => { let mut n = 0; Arc::new(move |g, m| { let y = g + 128.0 * m + up(65536.0) * n as f32; n = (n + 1) % 8; log(vec![3, q4(down(g) as f32), q4(down(m) as f32), q4(down(y) as f32)]); y }) }
        }
    }
}
impl Suite for Blk {
    fn reset(&mut self) { self.b = None; }
    fn op(&mut self, op: &Op, out: &mut Out) {
        let mut e = Ev::new(op.name);
        match op.name {
            "new" => {
                self.product = op.s(3) == "def"; self.b = Some(StandardBlock::new(TestGen { node: 1, b: op.i(2), cnt: 0 }, TestMod { node: 2, a: op.i(0), b: op.i(1), cnt: 0 }, Self::inter(op.s(3))));
                e = e.i("a", op.i(0)).i("b", op.i(1)).i("gb", op.i(2)).s("k", op.s(3));
            }
            "gen" => { self.product = false; self.b = Some(StandardBlock::from_generator(TestGen { node: 1, b: op.i(0), cnt: 0 })); e = e.i("gb", op.i(0)); }
            "mod" => { self.product = false; self.b = Some(StandardBlock::from_modifier(TestMod { node: 2, a: op.i(0), b: op.i(1), cnt: 0 })); e = e.i("a", op.i(0)).i("b", op.i(1)); }
            "prime" => { let x = op.f(0) as f32; self.b.as_mut().unwrap().prime_input(up(x)); e = e.i("x", q4(x)); }
            "proc" => {
                let y = self.b.as_mut().unwrap().process();
                let l = take_log();
                let pick = |k: i64| l.iter().filter(|v| v[0] == k).map(|v| v[1..].to_vec()).collect::<Vec<_>>();
                let y = down(y) as f32;
                // A product of two samples is as much louder again.
                let y = if self.product { down(y) as f32 } else { y };
                e = e.i("y", q4(y)).ll("g", pick(1)).ll("m", pick(2)).ll("i", pick(3));
            }
            // run N X : N runs, each primed with X; how many of each part's, the last one, and how many weren't like those a period before
            "run" => {
                let (n, x) = (op.i(0), op.f(1) as f32);
                let b = self.b.as_mut().unwrap();
                let (mut ring, mut odd, mut ran, mut y, mut last) = (vec![0f32; 808], 0, [0; 4], 0f32, Vec::new());
                for i in 0..n {
                    b.prime_input(up(x));
                    y = b.process();
                    last = take_log();
                    for v in &last { ran[v[0] as usize] += 1; }
                    let at = (i % 808) as usize;
                    // What was waiting before may show in the first one.
                    if i > 808 && ring[at] != y { odd += 1; }
                    ring[at] = y;
                }
                let pick = |k: i64| last.iter().filter(|v| v[0] == k).map(|v| v[1..].to_vec()).collect::<Vec<_>>();
                let y = down(y) as f32;
                let y = if self.product { down(y) as f32 } else { y };
                e = e.i("n", n).i("x", q4(x)).i("y", q4(y)).ll("g", pick(1)).ll("m", pick(2)).ll("i", pick(3)).l("ran", ran[1..].to_vec()).i("odd", odd);
            }
            // Swaps the contained generator or modifier through its accessor.
            "swapg" => { *self.b.as_mut().unwrap().get_g_mut() = Arc::new(TestGen { node: 1, b: op.i(0), cnt: 0 }); e = e.i("gb", op.i(0)); }
            "swapm" => { *self.b.as_mut().unwrap().get_m_mut() = Arc::new(TestMod { node: 2, a: op.i(0), b: op.i(1), cnt: 0 }); e = e.i("a", op.i(0)).i("b", op.i(1)); }
            // Runs the contained generator or modifier from outside through its accessor.
            "callg" => {
                let y = Arc::get_mut(self.b.as_mut().unwrap().get_g_mut()).unwrap().process();
                take_log();
                e = e.i("y", q4(down(y) as f32));
            }
            "callm" => {
                let x = op.f(0) as f32;
                let y = Arc::get_mut(self.b.as_mut().unwrap().get_m_mut()).unwrap().process(up(x));
                take_log();
                e = e.i("x", q4(x)).i("y", q4(down(y) as f32));
            }
            // The shared accessors refer to the same objects.
            "same" => {
                let b = self.b.as_mut().unwrap();
                let g = Arc::as_ptr(b.get_g()) as *const u8; let m = Arc::as_ptr(b.get_m()) as *const u8;
                let ok = g == Arc::as_ptr(b.get_g_mut()) as *const u8 && m == Arc::as_ptr(b.get_m_mut()) as *const u8;
                e = e.b("ok", ok);
            }
            x => panic!("HARNESS: op {}", x),
        }
        out.put(e);
    }
}
