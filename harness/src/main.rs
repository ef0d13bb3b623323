//! Drives the public API of bae_rs by scripts and records what it does.
//!
//! usage: bae_harness SUITE SCRIPT OUT
//!
//! A script has one operation per line; `S n` starts scenario n. Every
//! operation becomes at least one event (a line of JSON) in OUT. A panic in the code
//! under test is an event as well, and ends its scenario.
mod util;
mod sound;
mod chan;
mod dev;
mod wavs;
mod fmts;
mod misc;
use util::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let script = std::fs::read_to_string(&a[2]).unwrap();
    let mut out = Out::new(&a[3]);
    let mut suite: Box<dyn Suite> = match a[1].as_str() {
        "graph" => Box::new(sound::Graph::default()),
        "simple" => Box::new(sound::Simple::default()),
        "block" => Box::new(sound::Blk::default()),
        "chan" => Box::new(chan::Chan::default()),
        "dev" => Box::new(dev::Dev::default()),
        "wav" => Box::new(wavs::Wavs::default()),
        "fmt" => Box::new(fmts::Fmts::default()),
        "misc" => Box::new(misc::Misc::default()),
        x => panic!("HARNESS: no suite {}", x),
    };
    std::panic::set_hook(Box::new(|_| {}));
    let mut dead = false;
    for line in script.lines() {
        let mut t = line.split_ascii_whitespace();
        let name = match t.next() { Some(n) => n, None => continue };
        if name.starts_with('#') { continue; }
        let op = Op { name, t: t.collect() };
        if name == "S" {
            out.scn = op.i(0);
            dead = false;
            // Dropping what's left may run code under test as well.
            let r = catch_unwind(AssertUnwindSafe(|| suite.reset()));
            if r.is_err() { out.put(Ev::new("panic").s("of", "drop").s("msg", "")); }
            take_log();
            set_scale(0, 0, 0);
            out.put(Ev::new("S").i("n", op.i(0)));
            out.flush();
            continue;
        }
        if dead { continue; }
        if name == "loud" { let a = |n| if op.n() > n { op.i(n) as i32 } else { 0 }; set_scale(a(0), a(1), a(2)); continue; }
        let r = catch_unwind(AssertUnwindSafe(|| suite.op(&op, &mut out)));
        if let Err(p) = r {
            let m = if let Some(s) = p.downcast_ref::<String>() { s.clone() }
                else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { String::new() };
            if m.starts_with("HARNESS") { eprintln!("{} at: {}", m, line); std::process::exit(3); }
            out.put(Ev::new("panic").s("of", name).s("msg", &m));
            dead = true;
        }
    }
    let r = catch_unwind(AssertUnwindSafe(|| suite.reset()));
    if r.is_err() { out.put(Ev::new("panic").s("of", "drop").s("msg", "")); }
    out.flush();
    println!("EVENTS {}", out.events);
}
