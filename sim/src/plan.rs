//! A plan is one complete simulated execution written down: workload, fault
//! placements and schedule.  Executing a plan draws no further randomness
//! except from seeds that are written in it, so a plan file replays exactly.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum At {
    /// fault at this ordinal of the matching callback inside the operation
    Abs(u32),
    /// at this fraction (x/65536) of all matching callbacks, counted by a fault-free rehearsal
    Frac(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    /// panic out of a callback that is not a destructor
    Panic,
    /// panic out of a destructor
    DropPanic,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fault {
    pub kind: FaultKind,
    pub at: At,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Step {
    /// simulated caller thread
    pub tid: usize,
    pub op: String,
    pub args: Vec<i64>,
    pub faults: Vec<Fault>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Plan {
    pub prop: String,
    pub kind: String,
    pub seed: u64,
    pub mode: String,
    /// circumstances of the caller: "unwind" (already unwinding), "nest:<k>" (uses rowcol itself at every k-th callback)
    pub ctx: Vec<String>,
    pub shape: Vec<i64>,
    pub steps: Vec<Step>,
    /// at global yield point .0, run thread .1
    pub sw: Vec<(u32, u32)>,
    /// at the .0th access to writable static memory, run thread .1 ("fine" build)
    pub hot: Vec<(u32, u32)>,
}

impl Plan {
    pub fn to_text(&self) -> String {
        let mut s = String::from("rcsim-plan 1\n");
        s += &format!("prop {}\nkind {}\nseed {}\nmode {}\n", self.prop, self.kind, self.seed, self.mode);
        for c in &self.ctx { s += &format!("ctx {}\n", c); }
        s += "shape";
        for x in &self.shape { s += &format!(" {}", x); }
        s.push('\n');
        for st in &self.steps {
            s += &format!("step {} {}", st.tid, st.op);
            for a in &st.args { s += &format!(" {}", a); }
            for f in &st.faults {
                let k = match f.kind { FaultKind::Panic => "panic", FaultKind::DropPanic => "droppanic" };
                match f.at {
                    At::Abs(n) => s += &format!(" !{}@{}", k, n),
                    At::Frac(n) => s += &format!(" !{}~{}", k, n),
                }
            }
            s.push('\n');
        }
        for &(g, t) in &self.sw { s += &format!("sw {} {}\n", g, t); }
        for &(g, t) in &self.hot { s += &format!("hot {} {}\n", g, t); }
        s
    }

    pub fn parse(text: &str) -> Result<Plan, String> {
        let mut p = Plan { prop: String::new(), kind: String::new(), seed: 0, mode: String::from("plain"), ctx: vec![], shape: vec![], steps: vec![], sw: vec![], hot: vec![] };
        let mut head = false;
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') { continue; }
            let mut w = line.split_whitespace();
            let key = w.next().unwrap();
            let rest: Vec<&str> = w.collect();
            let num = |s: &str| s.parse::<i64>().map_err(|e| format!("{}: {}", s, e));
            match key {
                "rcsim-plan" => head = true,
                "prop" => p.prop = rest[0].into(),
                "kind" => p.kind = rest[0].into(),
                "mode" => p.mode = rest[0].into(),
                "ctx" => p.ctx.push(rest[0].into()),
                "seed" => p.seed = rest[0].parse().map_err(|e| format!("{:?}", e))?,
                "shape" => for r in rest { p.shape.push(num(r)?); },
                "hot" => p.hot.push((num(rest[0])? as u32, num(rest[1])? as u32)),
                "sw" => p.sw.push((num(rest[0])? as u32, num(rest[1])? as u32)),
                "step" => {
                    let mut st = Step { tid: num(rest[0])? as usize, op: rest[1].into(), args: vec![], faults: vec![] };
                    for r in &rest[2..] {
                        if let Some(f) = r.strip_prefix('!') {
                            let (k, at) = if let Some(i) = f.find('@') {
                                (&f[..i], At::Abs(num(&f[i + 1..])? as u32))
                            } else if let Some(i) = f.find('~') {
                                (&f[..i], At::Frac(num(&f[i + 1..])? as u32))
                            } else { return Err(format!("bad fault {}", r)); };
                            let kind = match k { "panic" => FaultKind::Panic, "droppanic" => FaultKind::DropPanic, _ => return Err(format!("bad fault {}", r)) };
                            st.faults.push(Fault { kind, at });
                        } else {
                            st.args.push(num(r)?);
                        }
                    }
                    p.steps.push(st);
                }
                "expect" | "profile" | "note" => {}
                _ => return Err(format!("bad line {}", line)),
            }
        }
        if head { Ok(p) } else { Err("not a plan".into()) }
    }
}
