//! Running one catalogue operation through its planned failures.
use crate::plan::*;
use crate::world::*;
use crate::viol;

pub struct Att { pub fault: Option<(u8, u32)>, pub n: u32, pub d: u32, pub rehearsal: bool, pub fired: bool }

impl Att {
    pub fn run<R>(&mut self, f: impl FnOnce() -> R) -> Res<R> {
        let (r, n, d) = run(self.fault, f);
        self.n = n;
        self.d = d;
        let w = w();
        self.fired = w.th[w.cur].fired;
        r
    }
}

#[derive(Default)]
pub struct Cx {
    pub faults: Vec<Fault>,
    pub resolved: Vec<Fault>,
}

impl Cx {
    pub fn new(faults: &[Fault]) -> Cx { Cx { faults: faults.to_vec(), resolved: vec![] } }

    fn resolve(&mut self, f: Fault, n: u32, d: u32) -> (u8, u32) {
        let cnt = if f.kind == FaultKind::DropPanic { d } else { n };
        let at = match f.at {
            At::Abs(x) => x,
            At::Frac(x) => ((x as u64 * cnt as u64) >> 16) as u32,
        };
        self.resolved.push(Fault { kind: f.kind, at: At::Abs(at) });
        (kindno(f.kind), at)
    }

    /// Rehearsal (only to place fractional faults), each planned failure, then a clean attempt.
    pub fn each(&mut self, mut body: impl FnMut(&mut Att)) { self.each_dyn(&mut body) }

    fn each_dyn(&mut self, body: &mut dyn FnMut(&mut Att)) {
        let (mut n, mut d) = (0, 0);
        if self.faults.iter().any(|f| matches!(f.at, At::Frac(_))) {
            let mut a = Att { fault: None, n: 0, d: 0, rehearsal: true, fired: false };
            body(&mut a);
            n = a.n;
            d = a.d;
        }
        for f in self.faults.clone() {
            if !w().viol.is_empty() { return; }
            let fault = Some(self.resolve(f, n, d));
            let mut a = Att { fault, n: 0, d: 0, rehearsal: false, fired: false };
            body(&mut a);
        }
        if !w().viol.is_empty() { return; }
        let mut a = Att { fault: None, n: 0, d: 0, rehearsal: false, fired: false };
        body(&mut a);
    }

    /// For operations that change their target: a rehearsal on a copy (if needed),
    /// then one attempt only, with the first planned failure.
    pub fn once(&mut self, rehearse: &mut dyn FnMut(&mut Att), body: &mut dyn FnMut(&mut Att)) {
        let f = self.faults.first().cloned();
        let mut fault = None;
        if let Some(f) = f {
            let (mut n, mut d) = (0, 0);
            if let At::Frac(_) = f.at {
                let mut a = Att { fault: None, n: 0, d: 0, rehearsal: true, fired: false };
                rehearse(&mut a);
                n = a.n;
                d = a.d;
            }
            fault = Some(self.resolve(f, n, d));
        }
        let mut a = Att { fault, n: 0, d: 0, rehearsal: false, fired: false };
        body(&mut a);
    }
}

pub fn hostile() -> bool { w().hostile != Hostile::No }

/// Compares a finished operation's result with the model.
pub fn want<R>(r: Res<R>, read: impl FnOnce(&R) -> Vec<u64>, expect: &[u64]) {
    let _g = AllowAlloc::new();
    let r = match r { Res::Ok(x) => Res::Ok(read(&x)), Res::Panic(m) => Res::Panic(m), Res::Injected => Res::Injected, Res::Budget => Res::Budget };
    want_vals(r, expect)
}

fn want_vals(r: Res<Vec<u64>>, expect: &[u64]) {
    match r {
        Res::Ok(got) => {
            for &g in &got { w().ev(g); }
            if !hostile() && got != expect {
                viol!("value", "{}: returned {} instead of {}", w().opname, short(&got), short(expect));
            }
        }
        Res::Panic(m) => viol!("panic", "{}: unexpected panic: {}", w().opname, m),
        Res::Injected | Res::Budget => {}
    }
}

pub fn short(v: &[u64]) -> String {
    if v.len() <= 24 { format!("{:?}", v) } else { format!("{:?}... ({} values)", &v[..24], v.len()) }
}

pub fn intact(what: &str, got: Vec<u64>, expect: &[u64]) {
    let _g = AllowAlloc::new();
    if !hostile() && got != expect {
        viol!("intact", "{}: borrowed operand {} changed from {} to {}", w().opname, what, short(expect), short(&got));
    }
}
