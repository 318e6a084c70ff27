//! rcsim: deterministic simulation of rowcol inside a hostile caller.
//!   rcsim work PROP SEED START STRIDE COUNT SECONDS DIR   simulate many plans
//!   rcsim gen PROP SEED INDEX                             print one plan
//!   rcsim run FILE                                        execute a plan file
#![allow(clippy::all)]
#![allow(dead_code, unused_imports)]
mod answers;
mod cb;
mod collect;
mod cx;
mod exec;
mod flt;
mod fmtsim;
mod gen;
mod iters;
mod mac;
mod model;
mod mops;
mod nest;
mod plan;
mod rng;
mod threads;
mod types;
mod vops;
mod world;

use std::collections::HashSet;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};

#[global_allocator]
#[cfg_attr(rcfine, link_section = "rcown")]
static A: world::SimAlloc = world::SimAlloc;

#[cfg_attr(rcfine, link_section = "rcown")]
static RUNS: AtomicU64 = AtomicU64::new(0);
const HANG_SECS: u64 = 20;

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut since = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(1000));
            let n = RUNS.load(Ordering::Relaxed);
            if n == last { since += 1; } else { since = 0; last = n; }
            if since >= HANG_SECS { extern "C" { fn _exit(c: i32) -> !; } unsafe { _exit(77) } }
        }
    });
}

fn main() {
    if std::env::var_os("RCSIM_PANICS").is_none() { std::panic::set_hook(Box::new(|_| world::raised())); }
    world::init();
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<u64>().expect("number");
    match a.get(1).map(|s| &s[..]) {
        Some("gen") => print!("{}", gen::plan(&a[2], num(3), num(4)).to_text()),
        Some("props") => for p in gen::PROPS { println!("{} {}", p, gen::classes(p).join(",")); },
        Some("run") => {
            let text = std::fs::read_to_string(&a[2]).expect("plan file");
            let p = match plan::Plan::parse(&text) { Ok(p) => p, Err(e) => { eprintln!("bad plan: {}", e); std::process::exit(2) } };
            watchdog();
            world::w().trace = true;
            let r = exec::exec(&p);
            let mine = gen::classes(&p.prop);
            let mut bad = false;
            for v in &r.viol {
                let own = mine.contains(&v.class) || v.class == "harness";
                bad |= own;
                println!("{} {} {}", if own { "VIOL" } else { "other" }, v.class, v.msg.replace('\n', "\\n"));
            }
            for l in &r.log { println!("LOG {}", l); }
            println!("HASH {:016x}", r.hash);
            println!("EVENTS {}", r.events);
            std::process::exit(if bad { 1 } else { 0 });
        }
        Some("work") => work(&a[2], num(3), num(4), num(5), num(6), num(7), &a[8]),
        _ => { eprintln!("usage: rcsim work|gen|run"); std::process::exit(2) }
    }
}

fn work(prop: &str, seed: u64, start: u64, stride: u64, count: u64, secs: u64, dir: &str) {
    let cur = std::fs::File::create(format!("{}/cur", dir)).unwrap();
    let mut hashes: Vec<(u64, u64)> = Vec::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut seen_nt: HashSet<u64> = HashSet::new();
    let mine = gen::classes(prop);
    watchdog();
    let t0 = std::time::Instant::now();
    let (mut runs, mut nontrivial, mut events, mut switches, mut others, mut steps) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut found = None;
    for k in 0..count {
        if k % 64 == 0 && t0.elapsed().as_secs() >= secs { break; }
        let idx = start + k * stride;
        cur.write_all_at(&idx.to_le_bytes(), 0).unwrap();
        RUNS.fetch_add(1, Ordering::Relaxed);
        let p = gen::plan(prop, seed, idx);
        let r = exec::exec(&p);
        runs += 1;
        events += r.events;
        switches += r.switches as u64;
        steps += p.steps.len() as u64;
        if k < 2000 { hashes.push((idx, r.hash)); }
        seen.insert(r.hash);
        if r.nontrivial > 0 { seen_nt.insert(r.hash); nontrivial += 1; }
        if samples.len() < 3 && r.nontrivial > 0 { samples.push(p.to_text()); }
        for v in &r.viol {
            if mine.contains(&v.class) || v.class == "harness" {
                found = Some((idx, v.class, v.msg.clone()));
                break;
            }
            others += 1;
        }
        if found.is_some() { break; }
    }
    let mut o = std::fs::File::create(format!("{}/out", dir)).unwrap();
    writeln!(o, "runs {}\nnontrivial {}\nevents {}\nswitches {}\nothers {}\nsteps {}\nmicros {}", runs, nontrivial, events, switches, others, steps, t0.elapsed().as_micros()).unwrap();
    for (k, v) in &world::w().stats { writeln!(o, "stat {} {}", k, v).unwrap(); }
    for (k, v) in exec::opcounts() { writeln!(o, "op {} {}", k, v).unwrap(); }
    let mut h = std::fs::File::create(format!("{}/hashes", dir)).unwrap();
    for (i, x) in &hashes { writeln!(h, "{} {:016x}", i, x).unwrap(); }
    for (name, set) in [("distinct", &seen), ("distinct_nt", &seen_nt)] {
        let mut d = Vec::with_capacity(set.len() * 8);
        for x in set { d.extend_from_slice(&x.to_le_bytes()); }
        std::fs::write(format!("{}/{}", dir, name), d).unwrap();
    }
    for (i, s) in samples.iter().enumerate() { std::fs::write(format!("{}/sample{}", dir, i), s).unwrap(); }
    if let Some((idx, class, msg)) = found {
        writeln!(o, "found {} {} {}", idx, class, msg.replace('\n', "\\n")).unwrap();
    }
}
