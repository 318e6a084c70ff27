//! One seed decides one plan: workload, sizes, faults and schedule.
use crate::answers::AOPS;
use crate::cb::KOPS;
use crate::collect::COPS;
use crate::fmtsim::FOPS;
use crate::iters::{CHUNKS, ENDING, IOPS, MKINDS};
use crate::mops::*;
use crate::plan::*;
use crate::types::*;
use crate::rng::{mix, Rng};
use crate::vops::{VMUT, VOPS};

pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"];

/// Which kinds of violation each property owns.
pub fn classes(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["own", "crash"],
        "C02" => &["value", "panic", "own", "hang", "crash"],
        "C03" => &["value", "panic", "own", "hang", "crash"],
        "C04" => &["value", "panic", "intact", "hang", "crash"],
        "C05" => &["sink", "value", "panic", "hang", "crash"],
        "C06" => &["torn", "panic", "crash", "hang"],
        "C07" => &["value", "panic", "intact", "hang", "crash"],
        "C08" => &["value", "intact", "panic", "hang", "crash"],
        "C09" => &["value", "intact", "panic", "torn", "hang", "crash", "send", "own"],
        "C10" => &["alloc", "crash"],
        "C11" => &["hang", "panic", "own", "crash", "select"],
        "C12" => &["value", "panic", "intact", "hang", "crash"],
        _ => &[],
    }
}

pub fn len(r: &mut Rng) -> i64 {
    match r.below(10) { 0 => r.below(33) as i64, 1 => *r.pick(&[16, 17, 31, 32, 12, 24]), 2 => 0, _ => *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9]) }
}
fn shape(r: &mut Rng, big: bool) -> (i64, i64) {
    loop {
        let s = *r.pick(SHAPES);
        if s.0 * s.1 > 128 && !r.chance(1, if big { 6 } else { 24 }) { continue; }
        return s;
    }
}

/// Operations defined over any ring, however its products behave.
const RING: &[&str] = &["add_vv", "add_vr", "add_rv", "add_rr", "sub_vv", "sub_vr", "sub_rv", "sub_rr", "mul", "mul_ref", "div", "div_ref", "neg", "dot", "sum",
    "pipeline", "mulvec", "mulvec_ref", "identity", "one", "pow", "cross", "add_assign", "sub_assign", "mul_assign", "div_assign", "transpose", "mul_assign_mat", "set"];
fn among(ring: bool, l: &[&'static str]) -> Vec<&'static str> { l.iter().copied().filter(|o| !ring || RING.contains(o)).collect() }

struct Faults { rate: u64, drops: u64, max: u64 }
impl Faults {
    fn new(r: &mut Rng, drops: bool) -> Faults {
        Faults { rate: *r.pick(&[0, 30, 60, 100]), drops: if drops { *r.pick(&[0, 0, 0, 50, 100]) } else { 0 }, max: *r.pick(&[1, 2, 4]) }
    }
    fn none() -> Faults { Faults { rate: 0, drops: 0, max: 1 } }
    fn draw(&self, r: &mut Rng) -> Vec<Fault> {
        if r.below(100) >= self.rate { return vec![]; }
        let n = 1 + r.below(self.max);
        (0..n).map(|_| Fault {
            kind: if r.below(100) < self.drops { FaultKind::DropPanic } else { FaultKind::Panic },
            at: match r.below(5) { 0 => At::Abs(r.below(4) as u32), 1 => At::Frac(65535), _ => At::Frac(r.below(65536) as u32) },
        }).collect()
    }
}

fn arg(r: &mut Rng) -> i64 { if r.chance(1, 3) { r.below(12) as i64 } else { r.below(1 << 40) as i64 } }
fn step(tid: usize, op: impl Into<String>, args: Vec<i64>, faults: Vec<Fault>) -> Step { Step { tid, op: op.into(), args, faults } }

/// A swarm: this run uses only some of the operations.
fn subset(r: &mut Rng, all: &[&'static str]) -> Vec<&'static str> {
    if r.chance(1, 3) { return all.to_vec(); }
    let k = 1 + r.us(5);
    (0..k).map(|_| *r.pick(all)).collect()
}

pub fn plan(prop: &str, seed: u64, idx: u64) -> Plan {
    let mut r = Rng::new(mix(seed) ^ mix(idx.wrapping_mul(0x9e3779b97f4a7c15) ^ prop.bytes().fold(0u64, |h, b| h * 131 + b as u64)));
    let r = &mut r;
    let kind: &str = match prop {
        "C01" => r.pick(&["vec", "vec", "mat", "mat", "sq", "mm", "conv", "vmut", "mmut", "sqmut", "iterv", "chunks", "iterm", "collect", "cbv", "cbm", "mac", "fmtm", "fmtv", "ansv", "ansm", "tyv", "tym"]),
        "C02" => "collect",
        "C03" => r.pick(&["iterv", "iterv", "chunks", "chunks", "tyv"]),
        "C04" => r.pick(&["iterm", "iterm", "iterm", "tym"]),
        "C05" => r.pick(&["fmtm", "fmtm", "fmtv"]),
        "C06" => r.pick(&["vmut", "vmut", "mmut", "mmut", "sqmut", "sqmut", "tyv", "tym"]),
        "C07" => r.pick(&["cbv", "cbv", "cbm", "cbm", "cbm", "mac", "tyv", "tym"]),
        "C08" => r.pick(&["vec", "vec", "mat", "mat", "sq", "sq", "sq", "mm", "mm", "conv", "tyv", "tym"]),
        "C09" => if idx % 64 == 0 { "types" } else { "thr" },
        "C10" => r.pick(&["vec", "mat", "sq", "mm", "conv", "vmut", "mmut", "sqmut", "iterv", "chunks", "iterm", "tyv", "tym"]),
        "C11" => r.pick(&["vec", "mat", "sq", "mm", "vmut", "mmut", "sqmut", "conv"]),
        "C12" => r.pick(&["ansv", "ansm", "ansm"]),
        _ => "none",
    };
    let mut p = Plan { prop: prop.into(), kind: kind.into(), seed: r.next(), mode: "plain".into(), ctx: vec![], shape: vec![], steps: vec![], sw: vec![], hot: vec![] };
    let f = match prop {
        "C10" => { p.mode = "deny".into(); Faults::none() }
        "C11" => {
            p.mode = match r.below(3) { 0 => "clonelies".to_string(), _ => {
                let b = *r.pick(&[10, 50, 100, 100]);
                match r.below(6) { 0 | 1 => format!("cmp:{}", b), 2 | 3 => format!("cmp:100:const{}", r.below(4)), 4 => format!("cmp:{}:{}", b, if r.chance(1, 2) { "cyclic".into() } else { format!("beat{}", r.below(64)) }), _ => format!("cmp:{}:pairwise", b) }
            } };
            if r.chance(1, 4) { Faults::new(r, false) } else { Faults::none() }
        }
        "C01" | "C08" | "C06" | "C03" => Faults::new(r, true),
        _ => Faults::new(r, false),
    };
    if kind != "types" {
        if kind != "thr" && r.chance(1, 6) { p.ctx.push("unwind".into()); }
        if prop != "C10" && r.chance(1, 8) { p.ctx.push(format!("nest:{}", r.pick(&[1, 3, 10, 30, 100]))); }
    }
    let ring = match (prop, kind) { ("C08", "vec") | ("C08", "mat") | ("C08", "sq") | ("C08", "mm") | ("C06", "vmut") | ("C06", "mmut") | ("C06", "sqmut") => r.chance(1, 8), _ => false };
    if ring { p.mode = "ring".into(); }
    let steps = 1 + r.us(8);
    match kind {
        "vec" => {
            p.shape = vec![len(r), arg(r), arg(r)];
            let ops = subset(r, &among(ring, VOPS));
            for _ in 0..steps { let op = *r.pick(&ops); let a = vec![arg(r), arg(r)]; p.steps.push(step(0, op, a, f.draw(r))); }
        }
        "mat" => {
            let s = shape(r, true);
            p.shape = vec![s.0, s.1, arg(r), arg(r)];
            let ops = subset(r, &among(ring, MOPS));
            let steps = if s.0 * s.1 > 128 { 1 } else { steps };
            for _ in 0..steps { let op = *r.pick(&ops); let a = vec![arg(r), arg(r)]; p.steps.push(step(0, op, a, f.draw(r))); }
        }
        "sq" => {
            let n = loop { let n = *r.pick(SQN); if n <= 5 || r.chance(1, if n > 12 { 24 } else if prop == "C11" { 16 } else { 8 }) { break n; } };
            p.shape = vec![n];
            // a determinant is factorial in the size when zero tests lie
            let all: Vec<&'static str> = among(ring, SQOPS).into_iter().filter(|o| !(prop == "C11" && n > 6 && (*o == "det" || *o == "cof"))).collect();
            let ops = subset(r, &all);
            let steps = if n > 5 { 1 + steps / 4 } else { steps };
            for _ in 0..steps { let op = *r.pick(&ops); let a = vec![arg(r), arg(r), r.below(10) as i64]; p.steps.push(step(0, op, a, f.draw(r))); }
        }
        "mm" => {
            p.shape = vec![r.us(TRIPLES) as i64];
            for _ in 0..1 + steps / 2 { let op = *r.pick(MULS); let a = vec![arg(r), arg(r)]; p.steps.push(step(0, op, a, f.draw(r))); }
        }
        "conv" => {
            p.shape = vec![r.us(CONVS + DIAGS) as i64];
            for _ in 0..1 + steps / 2 { let op = *r.pick(CONVOPS); let a = vec![arg(r), arg(r)]; p.steps.push(step(0, op, a, f.draw(r))); }
        }
        "vmut" | "mmut" | "sqmut" => {
            let safe = prop == "C10";
            let all: Vec<&'static str> = match kind { "vmut" => VMUT, "mmut" => MMUT, _ => SQMUT }.iter().copied()
                .filter(|o| !ring || RING.contains(o)).filter(|o| !(safe && (o.contains("oob") || *o == "static0_empty"))).collect();
            match kind {
                "vmut" => p.shape = vec![len(r), arg(r)],
                "mmut" => { let s = shape(r, false); p.shape = vec![s.0, s.1, arg(r)] }
                _ => p.shape = vec![loop { let n = *r.pick(SQMUTN); if n <= 6 || r.chance(1, if n <= 9 { 3 } else { 12 }) { break n; } }, arg(r)],
            }
            let ops = if kind == "sqmut" { all } else { subset(r, &all) };
            let steps = if kind == "sqmut" && p.shape[0] > 9 { 1 } else { steps * 2 };
            for _ in 0..steps { let op = *r.pick(&ops); let a = vec![arg(r), arg(r), arg(r), arg(r)]; let mut x = f.draw(r); x.truncate(1); p.steps.push(step(0, op, a, x)); }
        }
        "iterv" | "chunks" | "iterm" => {
            let n = match kind {
                "iterv" => { let n = len(r); p.shape = vec![n, arg(r)]; n }
                "chunks" => { let k = r.us(CHUNKS) as i64; p.shape = vec![k, arg(r)]; 6 }
                _ => { let s = shape(r, false); p.shape = vec![s.0, s.1, r.us(MKINDS.len()) as i64, arg(r), r.below(64) as i64]; s.0.max(s.1) }
            };
            let all: Vec<&'static str> = IOPS.iter().copied().filter(|o| !ENDING.contains(o)).collect();
            let ops = subset(r, &all);
            let small = r.chance(1, 2);
            let extreme = r.chance(1, 3);
            for _ in 0..steps + r.us(6) {
                let op = *r.pick(&ops);
                let k = if extreme && r.chance(1, 3) { -1 - r.below(8) as i64 } else if small { r.below(3) as i64 } else { r.below(n as u64 + 3) as i64 };
                let mut x = f.draw(r);
                x.truncate(1);
                for y in &mut x { if kind == "iterv" || kind == "chunks" { y.kind = FaultKind::DropPanic; } if r.chance(2, 3) { y.at = At::Abs(r.below(6) as u32); } }
                p.steps.push(step(0, op, vec![k], x));
            }
            if r.chance(2, 3) {
                let op = *r.pick(ENDING);
                let mut x = f.draw(r);
                x.truncate(1);
                p.steps.push(step(0, op, vec![0], x));
            }
        }
        "tyv" | "tym" => {
            let k = r.us(TKINDS) as i64;
            let v = kind == "tyv";
            let ops: Vec<&'static str> = match (prop, v) {
                ("C03", _) => vec![*r.pick(&["titer", "tchunks"])],
                ("C04", _) => vec!["tmrows"],
                ("C10", true) => vec!["tgenerate", "tclone", "tcollect", "tinner", "tset", "thet", "tchunks", "tfrom"],
                ("C10", false) => vec!["tmgenerate", "tmclone", "ttransposed", "tmap", "tmap_out", "tmnew", "tmset", "tmall", "tmhet"],
                ("C06", true) => vec!["tset", "tset", "titer_mut", "thet"],
                ("C06", false) => vec!["tmset", "tmset", "tmhet"],
                ("C07", true) => vec!["tgenerate"],
                ("C07", false) => vec!["tmgenerate", "tmap", "tmap_out", "tmall"],
                ("C08", true) => vec!["tclone", "tinner", "tcollect", "tgenerate", "thet", "thet", "tfrom"],
                ("C08", false) => vec!["tmclone", "ttransposed", "tmnew", "tmap"],
                (_, true) => TVOPS.to_vec(),
                _ => TMOPS.to_vec(),
            };
            if v { p.shape = vec![k, *r.pick(TLENS), arg(r)] } else { let s = *r.pick(TSHAPES); p.shape = vec![k, s.0, s.1, arg(r)] }
            let only = ops.len() == 1 && ops[0].starts_with("tmr") || ops.len() == 1 && (ops[0] == "titer" || ops[0] == "tchunks");
            for _ in 0..if only { 1 } else { steps } { let op = *r.pick(&ops); let mut x = f.draw(r); x.truncate(1); p.steps.push(step(0, op, vec![arg(r), arg(r), arg(r)], x)); }
            for _ in 0..r.us(9) {
                let op = *r.pick(IOPS);
                let kk = if r.chance(1, 4) { -1 - r.below(8) as i64 } else { r.below(6) as i64 };
                let mut x = f.draw(r);
                x.truncate(1);
                for y in &mut x { if v { y.kind = FaultKind::DropPanic; } if r.chance(2, 3) { y.at = At::Abs(r.below(6) as u32); } }
                let e = ENDING.contains(&op);
                p.steps.push(step(0, format!("it:{}", op), vec![kk], x));
                if e { break; }
            }
        }
        "collect" => {
            let n = len(r);
            p.shape = vec![n];
            for _ in 0..1 + steps / 2 {
                let op = *r.pick(COPS);
                let avail = match r.below(8) { 0 => -1, 1 => -3, 2 => -4, 3 => -5, 4 => r.below(n as u64 + 3) as i64, 5 => 0, _ => -2 };
                let mut x = f.draw(r);
                x.truncate(1);
                p.steps.push(step(0, op, vec![avail, arg(r), r.below(9) as i64, r.below(2) as i64], x));
            }
        }
        "cbv" | "cbm" => {
            if kind == "cbv" { p.shape = vec![len(r)] } else { let s = shape(r, true); p.shape = vec![s.0, s.1] }
            let ops: Vec<&'static str> = KOPS.iter().copied().filter(|o| o.starts_with("vgen") == (kind == "cbv")).collect();
            for _ in 0..steps { let op = *r.pick(&ops); let a = vec![arg(r), arg(r), arg(r)]; let mut x = f.draw(r); x.truncate(1); p.steps.push(step(0, op, a, x)); }
        }
        "mac" => {
            let ops = subset(r, crate::mac::MACOPS);
            for _ in 0..steps { let op = *r.pick(&ops); let a = vec![arg(r)]; let mut x = f.draw(r); x.truncate(1); p.steps.push(step(0, op, a, x)); }
        }
        "ansv" | "ansm" => {
            if kind == "ansv" { p.shape = vec![len(r)] } else { let s = shape(r, true); p.shape = vec![s.0, s.1] }
            let ops: Vec<&'static str> = AOPS.iter().copied().filter(|o| o.starts_with('v') == (kind == "ansv")).collect();
            for _ in 0..steps { let op = *r.pick(&ops); let a = vec![arg(r), arg(r)]; p.steps.push(step(0, op, a, f.draw(r))); }
        }
        "fmtm" | "fmtv" => {
            let m = kind == "fmtm";
            if m { let s = *r.pick(&FSHAPES[..]); p.shape = vec![s.0, s.1] } else { p.shape = vec![*r.pick(FLENS)] }
            let ops: Vec<&'static str> = FOPS.iter().copied().filter(|o| o.starts_with('v') != m).collect();
            for _ in 0..steps {
                let op = *r.pick(&ops);
                let mode = *r.pick(&[0, 1, 1, 2, 2, 2, 3, 4]);
                let efail = if r.chance(1, 6) { r.below(64) as i64 } else { -1 };
                let mut x = f.draw(r);
                x.truncate(1);
                p.steps.push(step(0, op, vec![mode, r.below(65536) as i64, r.below(2) as i64, efail, arg(r)], x));
            }
        }
        "thr" => {
            let fine = idx % 2 == 1;
            if fine { p.mode = "fine".into(); }
            let n = 2 + r.us(3);
            p.shape = vec![r.us(COMBOS) as i64, n as i64, 0, arg(r), arg(r)];
            let v = subset(r, VOPS);
            let vm = subset(r, VMUT);
            let m = subset(r, MOPS);
            let mm: Vec<&'static str> = subset(r, MMUT);
            let s = subset(r, SQOPS);
            let draw = |r: &mut Rng| match if fine && r.chance(1, 3) { 99 } else { r.below(26) } {
                99 => format!("n:{}", r.pick(crate::nest::PIECES).0),
                16 => format!("c:{}", r.pick(CONVOPS)),
                17 => format!("k:{}", r.pick(KOPS)),
                18 => format!("l:{}", r.pick(COPS)),
                19 => format!("q:{}", r.pick(&SQMUT[..2])),
                20 | 21 | 24 | 25 => format!("i:{}", r.pick(&["owned", "chunks", "rows", "cols", "rows_ref", "cols_ref", "col_inner"])),
                22 => format!("a:{}", r.pick(AOPS)),
                23 => format!("f:{}", r.pick(FOPS)),
                0 | 1 | 2 | 3 => format!("v:{}", r.pick(&v)),
                4 | 5 | 6 | 7 => format!("m:{}", r.pick(&m)),
                8 | 9 => format!("s:{}", r.pick(&s)),
                10 => format!("x:{}", r.pick(MULS)),
                11 => "send".into(),
                12 => "recv".into(),
                13 => r.pick(&["give", "got"]).to_string(),
                14 => format!("vm:{}", r.pick(&vm)),
                _ => format!("mm:{}", r.pick(&mm)),
            };
            // often the threads do the same few things, so that they meet in the same code
            let pool: Vec<String> = if fine && r.chance(2, 3) { (0..1 + r.us(3)).map(|_| draw(r)).collect() } else { vec![] };
            for t in 0..n {
                for _ in 0..1 + r.us(4) {
                    let op = if pool.is_empty() { draw(r) } else { r.pick(&pool).clone() };
                    let a = vec![arg(r), arg(r), r.below(10) as i64, arg(r)];
                    let mut x = f.draw(r);
                    x.truncate(1);
                    p.steps.push(step(t, op, a, x));
                }
            }
            // threads of a correct rowcol share no writable memory; should they ever, switch right there
            if fine {
                let first = if r.chance(1, 2) { 0 } else { let m = 1 << r.below(10); r.below(m) as u32 };
                for k in first..first + 64 { if r.chance(1, 2) { p.hot.push((k, r.below(n as u64) as u32)); } }
            }
            // the schedule: switch points by the global count of callbacks
            let style = r.below(4);
            let mut g = 0u32;
            let cnt = match style { 0 => 3, 1 => 12, 2 => 60, _ => 200 };
            for _ in 0..cnt {
                // loads and stores outnumber callbacks by far
                g += 1 + if fine { let m = 1 << r.below(if style == 3 { 9 } else { 14 }); r.below(m) as u32 } else { 0 } + match style { 0 => r.below(300), 1 => r.below(60), 2 => r.below(12), _ => r.below(3) } as u32;
                p.sw.push((g, r.below(n as u64) as u32));
            }
        }
        _ => {}
    }
    p
}

pub const FSHAPES: [(i64, i64); 25] = [(4, 7), (6, 1), (11, 3), (3, 10), (2, 25), (23, 2), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 1), (1, 5), (5, 4), (0, 0), (0, 3), (3, 0), (1, 0), (0, 1), (8, 8), (16, 2), (1, 32), (32, 1)];
pub const FLENS: &[i64] = &[0, 1, 2, 3, 4, 7, 16, 32];
pub const COMBOS: usize = 7;
pub const SQMUTN: &[i64] = &[0, 1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 9, 11, 16, 19, 32];
