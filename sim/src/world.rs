//! The simulated world: element registry, fault injector, scheduler, allocator.
//! Everything rowcol calls back into (element operators, clones, comparisons,
//! destructors, closures, source iterators, sinks, the allocator) is here, so
//! every callback is a point at which the simulator decides what happens next.

use crate::plan::FaultKind;
use crate::rng::{mix, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering as AO};
use std::sync::{Condvar, Mutex};

pub const P: u64 = 2147483647; // prime modulus of the element field
pub const MAXT: usize = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Site { Clone = 1, Arith, Cmp, Const, Closure, Src, Drop, Fmt }

pub struct Injected;
pub struct BudgetExceeded;

#[derive(Clone, Debug)]
pub struct Viol { pub class: &'static str, pub msg: String }

#[derive(Clone, Default)]
pub struct Th {
    pub armed: bool,
    pub n: u32,
    pub d: u32,
    pub fault: Option<(u8, u32)>, // 0 panic / 1 droppanic, ordinal
    pub fired: bool,
    /// the operation itself has panicked
    pub raised: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hostile { No, Cmp, CloneLies }

/// What a lying comparison answers.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lie {
    /// anything, differently each time
    Random,
    /// always the same, whatever is compared
    Const(u8),
    /// the same for the same pair and reversed for the reversed pair, but in no order (rock, paper, scissors)
    Cyclic(u64),
    /// the same for the same pair, contradicting itself for the reversed pair
    Pairwise(u64),
    /// changing with the number of the question, in a short rhythm
    Beat(u64),
}

pub struct World {
    pub epoch: u32,
    pub toks: Vec<u8>,
    pub roots: Vec<u32>,
    /// zero-sized elements alive
    pub zlive: i64,
    pub fresh: bool,
    pub cur: usize,
    pub th: [Th; MAXT + 1],
    pub viol: Vec<Viol>,
    pub hash: u64,
    pub total: u64,
    pub budget: u64,
    pub over: bool,
    pub dropfired: bool,
    pub hostile: Hostile,
    pub hrng: Rng,
    pub hbias: u64,
    pub hkind: Lie,
    /// products of elements do not commute
    pub ring: bool,
    pub beats: u64,
    /// every how many callbacks the caller uses rowcol itself (0: never), for which property
    pub nest: u64,
    pub nestp: u8,
    pub nests: u32,
    pub nested: bool,
    /// the whole run happens inside a destructor while the thread is already unwinding
    pub unwinding: bool,
    pub sched_on: bool,
    /// threads may also be switched at single loads and stores (needs the "fine" build)
    pub fine: bool,
    pub accesses: u64,
    pub fine_switches: u32,
    pub yields: u32,
    pub switches: u32,
    pub sw: Vec<(u32, u32)>,
    pub swi: usize,
    /// (access to writable static memory, thread to run there)
    pub hot: Vec<(u32, u32)>,
    pub hots: u32,
    pub deny: bool,
    pub opname: &'static str,
    pub stats: BTreeMap<&'static str, u64>,
    pub nontrivial: u32,
    pub log: Vec<String>,
    pub trace: bool,
}

struct Cell(UnsafeCell<Option<World>>);
unsafe impl Sync for Cell {}
#[cfg_attr(rcfine, link_section = "rcown")]
static WORLD: Cell = Cell(UnsafeCell::new(None));

/// Only the simulated thread that holds the baton touches the world.
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { (*WORLD.0.get()).as_mut().unwrap() }
}

#[allow(static_mut_refs)]
fn world_opt() -> Option<&'static mut World> { unsafe { (*WORLD.0.get()).as_mut() } }

pub fn init() {
    enter_simulation();
    unsafe {
        *WORLD.0.get() = Some(World {
            epoch: 0, toks: Vec::with_capacity(1 << 17), roots: Vec::with_capacity(1 << 17), zlive: 0, fresh: false,
            cur: 0, th: Default::default(), viol: vec![], hash: 0, total: 0, budget: u64::MAX, over: false, dropfired: false,
            hostile: Hostile::No, hrng: Rng::new(0), hbias: 0, hkind: Lie::Random, ring: false, beats: 0, nest: 0, nestp: 0, nests: 0, nested: false, unwinding: false, sched_on: false, fine: false, accesses: 0, fine_switches: 0, yields: 0, switches: 0,
            sw: vec![], swi: 0, hot: vec![], hots: 0, deny: false, opname: "", stats: BTreeMap::new(), nontrivial: 0, log: vec![], trace: false,
        });
    }
}

impl World {
    pub fn reset(&mut self) {
        self.epoch = self.epoch.wrapping_add(1);
        self.toks.clear();
        self.roots.clear();
        self.zlive = 0;
        self.fresh = false;
        self.cur = 0;
        self.th = Default::default();
        self.viol.clear();
        self.hash = 0xcbf29ce484222325;
        self.total = 0;
        self.budget = 20_000_000;
        self.over = false;
        self.dropfired = false;
        self.hostile = Hostile::No;
        self.hkind = Lie::Random;
        self.ring = false;
        self.beats = 0;
        self.nest = 0;
        self.nests = 0;
        self.nested = false;
        self.unwinding = false;
        self.sched_on = false;
        self.fine = false;
        self.accesses = 0;
        self.fine_switches = 0;
        self.yields = 0;
        self.switches = 0;
        self.sw.clear();
        self.swi = 0;
        self.hots = 0;
        self.deny = false;
        self.nontrivial = 0;
        self.log.clear();
    }
    #[inline]
    pub fn ev(&mut self, x: u64) {
        let _q = Quiet::new();
        self.hash = (self.hash ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
    }
    pub fn stat(&mut self, k: &'static str) {
        let _q = Quiet::new();
        let _g = AllowAlloc::new();
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn statn(&mut self, k: &'static str, n: u64) {
        let _q = Quiet::new();
        let _g = AllowAlloc::new();
        *self.stats.entry(k).or_insert(0) += n;
    }
    pub fn live(&self) -> usize {
        let _q = Quiet::new();
        self.toks.iter().filter(|&&s| s == 1).count()
    }
}

/// One line of the readable trace a replay prints.
pub fn note(f: impl FnOnce() -> String) {
    let _q = Quiet::new();
    if w().trace && w().log.len() < 400 { let _g = AllowAlloc::new(); let l = f(); w().log.push(l); }
}

pub fn viol(class: &'static str, msg: String) {
    let _q = Quiet::new();
    let _g = AllowAlloc::new();
    let w = w();
    w.ev(0xbad);
    if w.viol.len() < 8 { w.viol.push(Viol { class, msg }); }
}

#[macro_export]
macro_rules! viol {
    ($c:expr, $($t:tt)*) => {{
        let _q = $crate::world::Quiet::new();
        let _g = $crate::world::AllowAlloc::new();
        $crate::world::viol($c, format!($($t)*))
    }};
}

/// Whether the operation under way is unwinding (a second panic now would abort the process).
fn unwinding(w: &World) -> bool {
    if w.unwinding { let t = &w.th[w.cur]; t.fired || t.raised } else { std::thread::panicking() }
}
/// The panic hook: somebody other than the simulator panicked.
pub fn raised() {
    let _q = Quiet::new();
    if simulated() { if let Some(w) = world_opt() { let c = w.cur; if !w.nested { w.th[c].raised = true; } } }
}

/// Every call from rowcol back into caller code passes through here.
pub fn cb(site: Site) {
    let _q = Quiet::new();
    let w = w();
    w.total += 1;
    w.ev((site as u64) | ((w.cur as u64) << 8));
    if w.total > w.budget {
        if !w.over {
            w.over = true;
            viol("hang", format!("operation {} still running after {} callbacks", w.opname, w.total));
        }
        // a destructor must not unwind here: with destructors running it would only leak
        if site != Site::Drop && !unwinding(w) && w.th[w.cur].armed {
            std::panic::resume_unwind(Box::new(BudgetExceeded));
        }
        return;
    }
    if !w.th[w.cur].armed { return; }
    if w.nest > 0 && !w.nested && w.nests < 24 && w.total % w.nest == 0 {
        w.nests += 1;
        w.nested = true;
        w.nontrivial += 1;
        w.stat("fault.reentrant_use");
        crate::nest::fire(w.nestp, w.total);
        w.nested = false;
    }
    if w.sched_on { yield_point(); }
    let unwinding = unwinding(w);
    let t = &mut w.th[w.cur];
    let isd = site == Site::Drop;
    let ord = if isd { t.d += 1; t.d - 1 } else { t.n += 1; t.n - 1 };
    if let Some((k, at)) = t.fault {
        if (k == 1) == isd && at == ord && !unwinding {
            t.fired = true;
            t.fault = None;
            w.ev(0xfa17 + k as u64);
            if k == 1 { w.dropfired = true; }
            w.nontrivial += 1;
            w.stat(if k == 1 { "fault.destructor_panic" } else {
                match site {
                    Site::Clone => "fault.panic_in_clone",
                    Site::Arith => "fault.panic_in_arithmetic",
                    Site::Cmp => "fault.panic_in_comparison",
                    Site::Const => "fault.panic_in_constant",
                    Site::Closure => "fault.panic_in_closure",
                    Site::Src => "fault.panic_in_source",
                    Site::Fmt => "fault.panic_in_format",
                    Site::Drop => "fault.destructor_panic",
                }
            });
            std::panic::resume_unwind(Box::new(Injected));
        }
    }
}

#[derive(Debug)]
pub enum Res<R> { Ok(R), Injected, Panic(String), Budget }

impl<R> Res<R> {
    pub fn is_ok(&self) -> bool { matches!(self, Res::Ok(_)) }
}

pub fn kindno(k: FaultKind) -> u8 { if k == FaultKind::DropPanic { 1 } else { 0 } }

/// Runs one operation of the code under test as a crashable unit.
/// Returns its outcome and the number of (non-destructor, destructor) callbacks made.
pub fn run<R>(fault: Option<(u8, u32)>, f: impl FnOnce() -> R) -> (Res<R>, u32, u32) {
    let mut slot = None;
    let mut f = Some(f);
    let (r, n, d) = run_dyn(fault, &mut || { let r = (f.take().unwrap())(); slot = Some(r); });
    let r = match r { Res::Ok(()) => Res::Ok(slot.unwrap()), Res::Injected => Res::Injected, Res::Panic(m) => Res::Panic(m), Res::Budget => Res::Budget };
    (r, n, d)
}

fn run_dyn(fault: Option<(u8, u32)>, f: &mut dyn FnMut()) -> (Res<()>, u32, u32) {
    {
        let _q = Quiet::new();
        let w = w();
        w.th[w.cur] = Th { armed: true, n: 0, d: 0, fault, fired: false, raised: false };
    }
    let me = w().cur;
    let deny = w().deny;
    if deny { DENY.store(true, AO::Relaxed); }
    TRACK.store(true, AO::Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    TRACK.store(false, AO::Relaxed);
    if deny { DENY.store(false, AO::Relaxed); }
    let w = w();
    w.cur = me;
    let (n, d) = (w.th[me].n, w.th[me].d);
    w.th[me].armed = false;
    w.th[me].fault = None;
    let res = match r {
        Ok(()) => { w.ev(0x0c); Res::Ok(()) }
        Err(p) => {
            if p.is::<Injected>() { w.ev(0x1f); Res::Injected }
            else if p.is::<BudgetExceeded>() { Res::Budget }
            else {
                w.ev(0x9a);
                let m = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
                    else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
                    else { "?".to_string() };
                Res::Panic(m)
            }
        }
    };
    note(|| format!("thread {} {}: {} calls out, {} destructors -> {}{}", me, w.opname, n, d,
        match &res { Res::Ok(()) => "returned".to_string(), Res::Injected => "unwound with the injected failure".into(), Res::Panic(m) => format!("panicked: {}", m), Res::Budget => "never came back".into() },
        match fault { Some((0, k)) => format!(" (failure planned at call {})", k), Some((_, k)) => format!(" (failure planned at destructor {})", k), None => String::new() }));
    (res, n, d)
}

// ---------------------------------------------------------------- elements

/// The element type: a number in a prime field with an identity.
pub struct Tok { v: u64, id: u32, can: u32 }

fn canary(id: u32, epoch: u32) -> u32 { mix(((epoch as u64) << 32) | id as u64 | 0x5a) as u32 }

impl Tok {
    pub fn new(v: u64) -> Tok { Tok::make(v, None) }
    fn make(v: u64, root: Option<u32>) -> Tok {
        let _q = Quiet::new();
        let _g = AllowAlloc::new();
        let w = w();
        let id = w.toks.len() as u32;
        w.toks.push(1);
        w.roots.push(root.unwrap_or(id));
        Tok { v: canon(v), id, can: canary(id, w.epoch) }
    }
    /// Checks this is a live element and returns its number.
    pub fn val(&self) -> u64 {
        let _q = Quiet::new();
        let w = w();
        if self.can != canary(self.id, w.epoch) || self.id as usize >= w.toks.len() {
            viol("own", format!("{}: read of something that is not an element (uninitialised or foreign memory)", w.opname));
            return 0;
        }
        if w.toks[self.id as usize] != 1 {
            viol("own", format!("{}: use of an element after it was dropped or moved out", w.opname));
        }
        self.v
    }
    pub fn id(&self) -> u32 { self.id }
    pub fn root(&self) -> u32 {
        let _q = Quiet::new();
        let w = w();
        if (self.id as usize) < w.roots.len() { w.roots[self.id as usize] } else { u32::MAX }
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let _q = Quiet::new();
        let w = w();
        if self.can != canary(self.id, w.epoch) || self.id as usize >= w.toks.len() {
            viol("own", format!("{}: destructor run on something that is not an element (uninitialised or foreign memory)", w.opname));
            return;
        }
        if w.toks[self.id as usize] != 1 {
            viol("own", format!("{}: element dropped twice", w.opname));
            return;
        }
        w.toks[self.id as usize] = 2;
        cb(Site::Drop);
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        cb(Site::Clone);
        let mut v = self.val();
        let w = w();
        if w.hostile == Hostile::CloneLies && w.hrng.chance(1, 3) {
            v = w.hrng.below(P);
            w.stat("fault.lying_clone");
            w.nontrivial += 1;
        }
        Tok::make(v, Some(self.root()))
    }
}

pub fn powmod(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    b %= P;
    while e > 0 {
        if e & 1 == 1 { r = r * b % P; }
        b = b * b % P;
        e >>= 1;
    }
    r
}
/// Quaternions over a small prime field, for element types whose products do not commute.
const Q: u64 = 211;
fn quat(v: u64) -> [u64; 4] { [v % Q, v / Q % Q, v / (Q * Q) % Q, v / (Q * Q * Q) % Q] }
fn unquat(q: [u64; 4]) -> u64 { q[0] % Q + Q * (q[1] % Q) + Q * Q * (q[2] % Q) + Q * Q * Q * (q[3] % Q) }
fn qmul(a: u64, b: u64) -> u64 {
    let ([a, b, c, d], [e, f, g, h]) = (quat(a), quat(b));
    let m = 3 * Q * Q;
    unquat([a * e + m - b * f - c * g - d * h, a * f + b * e + c * h + m - d * g, a * g + m - b * h + c * e + d * f, a * h + b * g + m - c * f + d * e])
}
fn qdiv(a: u64, b: u64) -> u64 {
    let [e, f, g, h] = quat(b);
    let n = (e * e + f * f + g * g + h * h) % Q;
    let (mut r, mut k, mut x) = (1, n, Q - 2);
    while x > 0 { if x & 1 == 1 { r = r * k % Q; } k = k * k % Q; x >>= 1; }
    qmul(a, unquat([e * r, (Q - f) * r, (Q - g) * r, (Q - h) * r]))
}
/// Numbers stand for elements of a prime field or, in ring mode, for quaternions.
fn ring() -> bool { w().ring }
pub fn canon(v: u64) -> u64 { if ring() { v % (Q * Q * Q * Q) } else { v % P } }
pub fn fadd(a: u64, b: u64) -> u64 { if ring() { let (a, b) = (quat(a), quat(b)); return unquat([a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]]); } (a + b) % P }
pub fn fsub(a: u64, b: u64) -> u64 { if ring() { return fadd(a, fneg(b)); } (a + P - b) % P }
pub fn fmul(a: u64, b: u64) -> u64 { if ring() { return qmul(a, b); } a * b % P }
pub fn fdiv(a: u64, b: u64) -> u64 { if ring() { return qdiv(a, b); } fmul(a, powmod(b, P - 2)) } // x/0 = 0: element code never panics by itself
pub fn fneg(a: u64) -> u64 { if ring() { let a = quat(a); return unquat([Q - a[0], Q - a[1], Q - a[2], Q - a[3]]); } (P - a) % P }

macro_rules! binop {
    ($tr:ident, $f:ident, $g:ident) => {
        impl std::ops::$tr<Tok> for Tok { type Output = Tok; fn $f(self, o: Tok) -> Tok { cb(Site::Arith); Tok::new($g(self.val(), o.val())) } }
        impl<'a> std::ops::$tr<&'a Tok> for Tok { type Output = Tok; fn $f(self, o: &'a Tok) -> Tok { cb(Site::Arith); Tok::new($g(self.val(), o.val())) } }
        impl<'a> std::ops::$tr<Tok> for &'a Tok { type Output = Tok; fn $f(self, o: Tok) -> Tok { cb(Site::Arith); Tok::new($g(self.val(), o.val())) } }
        impl<'a, 'b> std::ops::$tr<&'b Tok> for &'a Tok { type Output = Tok; fn $f(self, o: &'b Tok) -> Tok { cb(Site::Arith); Tok::new($g(self.val(), o.val())) } }
    };
}
binop!(Add, add, fadd);
binop!(Sub, sub, fsub);
binop!(Mul, mul, fmul);
binop!(Div, div, fdiv);
fn frem(_a: u64, _b: u64) -> u64 { 0 }
binop!(Rem, rem, frem);

macro_rules! asgop {
    ($tr:ident, $f:ident, $g:ident) => {
        impl std::ops::$tr<Tok> for Tok {
            fn $f(&mut self, o: Tok) {
                cb(Site::Arith);
                self.v = $g(self.val(), o.val());
                cb(Site::Arith);
            }
        }
    };
}
asgop!(AddAssign, add_assign, fadd);
asgop!(SubAssign, sub_assign, fsub);
asgop!(MulAssign, mul_assign, fmul);
asgop!(DivAssign, div_assign, fdiv);

impl std::ops::Neg for Tok { type Output = Tok; fn neg(self) -> Tok { cb(Site::Arith); Tok::new(fneg(self.val())) } }
impl<'a> std::ops::Neg for &'a Tok { type Output = Tok; fn neg(self) -> Tok { cb(Site::Arith); Tok::new(fneg(self.val())) } }

fn lie() -> bool {
    let w = w();
    if w.hostile == Hostile::Cmp { let b = w.hbias; w.hrng.below(100) < b } else { false }
}
/// The lie itself: one of `k` answers about the pair (a, b).
pub fn answer(k: u64, a: u64, b: u64) -> u64 {
    let w = w();
    match w.hkind {
        Lie::Random => w.hrng.below(k),
        Lie::Const(c) => c as u64 % k,
        Lie::Cyclic(s) => {
            // of three answers 0 and 2 are each other's reverse; with four, 3 is "cannot say"
            let x = mix(s ^ mix(a.min(b)) ^ mix(a.max(b) ^ 77).rotate_left(9));
            let k3 = if k == 2 { return x & 1 } else { k };
            match x % k3 { 0 | 2 => if (x >> 40) & 1 == (a < b) as u64 { 0 } else { 2 }, y => y }
        }
        Lie::Beat(b) => {
            w.beats += 1;
            let (x, p) = (b / 16 % k, 2 + b % 4);
            if (w.beats + b / 4) % p == 0 { x } else { (x + 1 + b / 8 % 2) % k }
        }
        Lie::Pairwise(s) => mix(s ^ mix(a) ^ mix(b ^ 77).rotate_left(9)) % k,
    }
}
pub fn order(k: u64) -> Option<std::cmp::Ordering> {
    use std::cmp::Ordering::*;
    match k { 0 => Some(Less), 1 => Some(Equal), 2 => Some(Greater), _ => None }
}
fn lied() { let w = w(); w.stat("fault.lying_comparison"); w.nontrivial += 1; }

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        cb(Site::Cmp);
        let r = self.val() == o.val();
        if lie() { lied(); return answer(2, self.v, o.v) == 1; }
        r
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<std::cmp::Ordering> {
        cb(Site::Cmp);
        let r = self.val().cmp(&o.val());
        if lie() {
            lied();
            return order(answer(4, self.v, o.v));
        }
        Some(r)
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> std::cmp::Ordering {
        cb(Site::Cmp);
        let r = self.val().cmp(&o.val());
        if lie() {
            lied();
            return order(answer(3, self.v, o.v)).unwrap();
        }
        r
    }
}
impl Default for Tok { fn default() -> Tok { cb(Site::Const); Tok::new(0) } }
impl num::Zero for Tok {
    fn zero() -> Tok { cb(Site::Const); Tok::new(0) }
    fn is_zero(&self) -> bool {
        cb(Site::Cmp);
        let r = self.val() == 0;
        if lie() { lied(); return answer(2, self.v, self.v) == 1; }
        r
    }
}
impl num::One for Tok { fn one() -> Tok { cb(Site::Const); Tok::new(1) } }
impl num::Num for Tok { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Tok, ()> { Err(()) } }
impl num::Signed for Tok {
    fn abs(&self) -> Tok { self.clone() }
    fn abs_sub(&self, o: &Tok) -> Tok { self - o }
    fn signum(&self) -> Tok { num::One::one() }
    fn is_positive(&self) -> bool { cb(Site::Cmp); self.val() != 0 }
    fn is_negative(&self) -> bool { cb(Site::Cmp); false }
}
impl num::Bounded for Tok {
    fn min_value() -> Tok { cb(Site::Const); Tok::new(0) }
    fn max_value() -> Tok { cb(Site::Const); Tok::new(P - 1) }
}
impl approx::ApproxEq for Tok {
    type Epsilon = u64;
    fn default_epsilon() -> u64 { 0 }
    fn default_max_relative() -> u64 { 0 }
    fn default_max_ulps() -> u32 { 0 }
    fn relative_eq(&self, o: &Tok, e: u64, r: u64) -> bool {
        cb(Site::Cmp);
        let d = { let (a, b) = (self.val(), o.val()); if a > b { a - b } else { b - a } };
        if lie() { lied(); return answer(2, self.v, o.v) == 1; }
        d <= e.max(r)
    }
    fn ulps_eq(&self, o: &Tok, e: u64, u: u32) -> bool {
        cb(Site::Cmp);
        let d = { let (a, b) = (self.val(), o.val()); if a > b { a - b } else { b - a } };
        if lie() { lied(); return answer(2, self.v, o.v) == 1; }
        d <= e.max(u as u64)
    }
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        cb(Site::Fmt);
        write!(f, "{}", self.val())
    }
}
impl std::fmt::Display for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        cb(Site::Fmt);
        write!(f, "{}", self.val())
    }
}

// ---------------------------------------------------------------- scheduler

/// Above zero on a thread while the simulator itself is at work there: its own loads and
/// stores are no switch points.  Every thread starts like that.
pub struct Quiet;
#[cfg(rcfine)]
mod quiet {
    extern "C" { pub fn rc_quiet(by: i32); pub fn rc_on(on: i32); }
    impl super::Quiet { #[inline(always)] pub fn new() -> super::Quiet { unsafe { rc_quiet(1); } super::Quiet } }
    impl Drop for super::Quiet { #[inline(always)] fn drop(&mut self) { unsafe { rc_quiet(-1); } } }
}
#[cfg(not(rcfine))]
impl Quiet { #[inline(always)] pub fn new() -> Quiet { Quiet } }
/// This simulated thread starts (or stops) running code that is not the simulator's.
fn own_code(_on: bool) { RUNNING.with(|r| r.set(_on)); #[cfg(rcfine)] unsafe { quiet::rc_quiet(if _on { -1 } else { 1 }); } }
fn switch_anywhere(_on: bool) { #[cfg(rcfine)] unsafe { quiet::rc_on(_on as i32); } }
/// Called by the instrumentation of the "fine" build before every load and store.
#[no_mangle]
pub extern "C" fn rc_access(shared: i32) {
    let w = w();
    if !w.sched_on || !w.th[w.cur].armed { return; }
    w.accesses += 1;
    let n = w.switches;
    yield_point();
    if shared != 0 {
        let w = crate::world::w();
        let k = w.hots;
        w.hots += 1;
        if let Some(&(_, to)) = w.hot.iter().find(|h| h.0 == k) { switch_to(to as usize); }
    }
    let m = crate::world::w();
    if m.switches != n { m.fine_switches += 1; }
}

/// What a simulated thread waits for: the futex word, the value it saw there, and whether it was woken.
#[derive(Clone, Copy)]
struct Wait { word: usize, saw: u32, woken: bool }
struct Sched { cur: usize, n: usize, done: [bool; MAXT], wait: [Option<Wait>; MAXT] }
impl Sched {
    /// may run now: not finished, and not waiting for a lock that is still taken
    fn ready(&self, i: usize) -> bool {
        i < self.n && !self.done[i] && match self.wait[i] { None => true, Some(w) => w.woken || unsafe { std::ptr::read_volatile(w.word as *const u32) } != w.saw }
    }
    fn next(&self, me: usize) -> Option<usize> { (1..=self.n).map(|k| (me + k) % self.n).find(|&i| i != me && self.ready(i)) }
}
#[cfg_attr(rcfine, link_section = "rcown")]
static SCHED: Mutex<Sched> = Mutex::new(Sched { cur: 0, n: 0, done: [false; MAXT], wait: [None; MAXT] });
#[cfg_attr(rcfine, link_section = "rcown")]
static CVS: [Condvar; MAXT] = [Condvar::new(), Condvar::new(), Condvar::new(), Condvar::new()];

fn wait_turn(me: usize) {
    let mut s = SCHED.lock().unwrap();
    while s.cur != me { s = CVS[me].wait(s).unwrap(); }
}

fn yield_point() {
    let w = w();
    let g = w.yields;
    w.yields += 1;
    while w.swi < w.sw.len() && w.sw[w.swi].0 < g { w.swi += 1; }
    if w.swi < w.sw.len() && w.sw[w.swi].0 == g {
        let to = w.sw[w.swi].1 as usize;
        w.swi += 1;
        switch_to(to);
    }
}

fn switch_to(to: usize) {
    let w = w();
    {
        let me = w.cur;
        let go = { let s = SCHED.lock().unwrap(); s.ready(to) && to != me };
        if go {
            w.switches += 1;
            w.nontrivial += 1;
            w.ev(0x5c0 + to as u64);
            note(|| format!("yield point {}: switch from thread {} to thread {}", w.yields, me, to));
            w.cur = to;
            {
                let mut s = SCHED.lock().unwrap();
                s.cur = to;
                CVS[to].notify_one();
            }
            wait_turn(me);
        }
    }
}

// Locks.  Std's locks wait in the kernel through `syscall`, which the simulator answers itself:
// a simulated thread that would sleep there hands over to one that can run instead.

fn deadlock() -> ! { extern "C" { fn _exit(c: i32) -> !; } unsafe { _exit(78) } }

#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
mod os {
    use super::*;
    const FUTEX: i64 = 202;
    const SCHED_YIELD: i64 = 24;
    extern "C" { fn __errno_location() -> *mut i32; }
    unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        let r: i64;
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
        if r < 0 && r > -4096 { *__errno_location() = -r as i32; -1 } else { r }
    }
    fn of<T>(x: &T, p: i64) -> bool { let b = x as *const T as usize; (p as usize) >= b && (p as usize) < b + std::mem::size_of::<T>() }
    /// false for the simulator's own waiting and for what the runtime does when a thread starts or ends
    fn modelled(word: i64) -> bool { running() && w().sched_on && !of(&SCHED, word) && !of(&CVS, word) }

    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        if n == FUTEX && modelled(a) {
            let _q = Quiet::new();
            match b & 0x7f {
                0 | 9 => return sleep(a as usize, c as u32, d != 0),
                1 | 10 => {
                    let (mut k, mut s) = (0, SCHED.lock().unwrap());
                    for i in 0..s.n { if let Some(w) = &mut s.wait[i] { if w.word == a as usize && !w.woken && k < c { w.woken = true; k += 1; } } }
                    return k;
                }
                _ => {}
            }
        }
        raw(n, a, b, c, d, e, f)
    }
    unsafe fn sleep(word: usize, saw: u32, timed: bool) -> i64 {
        if std::ptr::read_volatile(word as *const u32) != saw { *__errno_location() = 11; return -1; }
        let me = w().cur;
        w().stat("env.waited_for_a_lock");
        let to = { let mut s = SCHED.lock().unwrap(); s.wait[me] = Some(Wait { word, saw, woken: false }); s.next(me) };
        match to {
            Some(to) => switch_to(to),
            None if timed => { SCHED.lock().unwrap().wait[me] = None; *__errno_location() = 110; return -1; }
            None => deadlock(),
        }
        SCHED.lock().unwrap().wait[me] = None;
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn sched_yield() -> i32 {
        if !running() || !w().sched_on { return raw(SCHED_YIELD, 0, 0, 0, 0, 0, 0) as i32; }
        let _q = Quiet::new();
        give_way();
        0
    }
}

/// This thread cannot go on before another one has done something.
fn give_way() {
    let to = { let s = SCHED.lock().unwrap(); s.next(w().cur) };
    if let Some(to) = to { w().stat("env.gave_way_while_spinning"); switch_to(to); }
}
/// Called by the "fine" build when a thread does nothing but look at one atomic again and again.
#[no_mangle]
pub extern "C" fn rc_spin() { if running() && w().sched_on { give_way(); } }

/// Runs the given bodies as simulated caller threads: real OS threads of which
/// exactly one is ever released, chosen by the plan's switch list.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send>>) {
    let n = bodies.len();
    {
        let mut s = SCHED.lock().unwrap();
        s.cur = 0;
        s.n = n;
        s.done = [false; MAXT];
        s.wait = [None; MAXT];
    }
    w().sched_on = true;
    w().cur = 0;
    switch_anywhere(w().fine);
    let hs: Vec<_> = bodies.into_iter().enumerate().map(|(me, b)| {
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            enter_simulation();
            wait_turn(me);
            own_code(true);
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(b)).is_err() {
                viol("panic", "a caller thread panicked while preparing or reading back values through the public API".into());
            }
            own_code(false);
            let mut s = SCHED.lock().unwrap();
            s.done[me] = true;
            if let Some(nx) = (0..s.n).find(|&i| s.ready(i)) {
                w().cur = nx;
                s.cur = nx;
                CVS[nx].notify_one();
            } else if s.done[..s.n].iter().all(|&d| d) {
                s.cur = MAXT;
            } else {
                deadlock();
            }
        }).unwrap()
    }).collect();
    for h in hs {
        if h.join().is_err() { viol("harness", "simulated thread died".into()); }
    }
    switch_anywhere(false);
    w().sched_on = false;
    w().cur = 0;
    if w().fine {
        let (a, n) = (w().accesses, w().fine_switches as u64);
        w().statn("fine.loads_and_stores", a);
        let h = w().hots as u64;
        w().statn("fine.accesses_to_static_memory", h);
        w().statn("fine.switches_between_loads_and_stores", n);
    }
}

// ---------------------------------------------------------------- allocator

pub struct SimAlloc;
/// while set, every request is refused
#[cfg_attr(rcfine, link_section = "rcown")]
pub static DENY: AtomicBool = AtomicBool::new(false);
#[cfg_attr(rcfine, link_section = "rcown")]
pub static DENIED: AtomicU64 = AtomicU64::new(0);
/// while set, allocations and frees are the code under test's own
#[cfg_attr(rcfine, link_section = "rcown")]
pub static TRACK: AtomicBool = AtomicBool::new(false);
#[cfg_attr(rcfine, link_section = "rcown")]
pub static TRACKED: AtomicI64 = AtomicI64::new(0);

extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; }

thread_local! {
    /// set on the threads the simulator runs; the watchdog's own requests are not the caller's
    static SIMULATED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
thread_local! {
    /// set on a simulated caller thread between its start and its end
    static RUNNING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn running() -> bool { RUNNING.try_with(|s| s.get()).unwrap_or(false) }
pub fn enter_simulation() { SIMULATED.with(|s| s.set(true)); }
fn simulated() -> bool { SIMULATED.try_with(|s| s.get()).unwrap_or(false) }

fn refuse() -> bool {
    if simulated() && DENY.load(AO::Relaxed) {
        DENIED.fetch_add(1, AO::Relaxed);
        let m = b"SIMALLOC denied\n";
        unsafe { write(2, m.as_ptr(), m.len()); }
        return true;
    }
    false
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse() { return std::ptr::null_mut(); }
        if TRACK.load(AO::Relaxed) && simulated() { TRACKED.fetch_add(1, AO::Relaxed); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if TRACK.load(AO::Relaxed) && simulated() { TRACKED.fetch_sub(1, AO::Relaxed); }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse() { return std::ptr::null_mut(); }
        System.realloc(p, l, n)
    }
}

/// The harness's own bookkeeping inside an operation may always allocate.
pub struct AllowAlloc(bool, bool);
impl AllowAlloc {
    pub fn new() -> AllowAlloc { AllowAlloc(DENY.swap(false, AO::Relaxed), TRACK.swap(false, AO::Relaxed)) }
}
impl Drop for AllowAlloc {
    fn drop(&mut self) {
        if self.0 { DENY.store(true, AO::Relaxed); }
        if self.1 { TRACK.store(true, AO::Relaxed); }
    }
}
