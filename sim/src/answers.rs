//! Equality, approximate equality and zero tests of elements whose answers the
//! simulator scripts position by position (C12).  An element never compares
//! numbers here: it looks up what the plan says it answers, so the aggregate
//! must be decided by the answers alone.
use crate::plan::*;
use crate::rng::Rng;
use crate::viol;
use crate::vops::name_of;
use crate::world::*;
use approx::ApproxEq;
use num::Zero;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;

pub const AOPS: &[&str] = &[
    "v_eq", "v_eq_other", "v_eq_self", "v_ne", "vv_eq", "v_zero", "m_eq", "m_eq_self", "m_ne", "m_zero", "m_rel", "m_ulps", "m_rel_ne", "m_ulps_ne", "m_rel_self", "m_default",
];

/// What each position answers, and what was asked.
pub struct Script { pub ans: Vec<bool>, pub asked: Vec<u32>, pub wrong: bool, pub eps: (u64, u64), pub ulps: u32, pub eps_bad: bool, pub alone: bool, pub itself: bool }
impl Script { const NEW: Script = Script { ans: vec![], asked: vec![], wrong: false, eps: (0, 0), ulps: 0, eps_bad: false, alone: false, itself: false }; }
/// one for each simulated thread
#[cfg_attr(rcfine, link_section = "rcown")]
static mut SCRIPT: [Script; MAXT + 1] = [Script::NEW; MAXT + 1];
#[allow(static_mut_refs)]
fn sc() -> &'static mut Script { unsafe { &mut SCRIPT[w().cur] } }

/// Element `i` of one side is compared with element `j` of another: the operands are not the same object unless the operation says so.
fn ask(i: u32, j: u32, same_side: bool) -> bool {
    cb(Site::Cmp);
    let _q = Quiet::new();
    let _g = AllowAlloc::new();
    let s = sc();
    if i != j { s.wrong = true; return true; }
    if same_side && !s.alone { s.itself = true; }
    s.asked.push(i);
    s.ans.get(i as usize).copied().unwrap_or(true)
}

/// Elements: a position, and an owned token so that losing or copying one shows.
pub struct L { pos: u32, side: u8, tok: Tok }
pub struct R { pos: u32, tok: Tok }
impl L {
    fn new(p: usize) -> L { L { pos: p as u32, side: 0, tok: Tok::new(p as u64) } }
    fn other(p: usize) -> L { L { side: 1, ..L::new(p) } }
    fn p(&self) -> u32 { self.tok.val(); self.pos }
}
impl R { fn new(p: usize) -> R { R { pos: p as u32, tok: Tok::new(p as u64) } } fn p(&self) -> u32 { self.tok.val(); self.pos } }
impl PartialEq for L { fn eq(&self, o: &L) -> bool { ask(self.p(), o.p(), self.side == o.side) } }
impl PartialEq<R> for L { fn eq(&self, o: &R) -> bool { ask(self.p(), o.p(), false) } }
impl std::ops::Add for L { type Output = L; fn add(self, _: L) -> L { cb(Site::Arith); self } }
impl Clone for L { fn clone(&self) -> L { cb(Site::Clone); L { pos: self.pos, side: self.side, tok: Tok::new(self.tok.val()) } } }
impl Zero for L {
    fn zero() -> L { cb(Site::Const); L::new(0) }
    fn is_zero(&self) -> bool { let p = self.p(); ask(p, p, false) }
}
impl ApproxEq for L {
    type Epsilon = Tok;
    fn default_epsilon() -> Tok { cb(Site::Const); Tok::new(11) }
    fn default_max_relative() -> Tok { cb(Site::Const); Tok::new(12) }
    fn default_max_ulps() -> u32 { cb(Site::Const); 13 }
    fn relative_eq(&self, o: &L, e: Tok, r: Tok) -> bool {
        let s = sc();
        if (e.val(), r.val()) != s.eps { s.eps_bad = true; }
        ask(self.p(), o.p(), self.side == o.side)
    }
    fn ulps_eq(&self, o: &L, e: Tok, u: u32) -> bool {
        let s = sc();
        if e.val() != s.eps.0 || u != s.ulps { s.eps_bad = true; }
        ask(self.p(), o.p(), self.side == o.side)
    }
}

fn script(seed: i64, n: usize) -> Vec<bool> {
    let mut r = Rng::new(seed as u64);
    match r.below(5) {
        0 | 1 => vec![true; n],
        2 | 3 if n > 0 => { let mut v = vec![true; n]; let k = match r.below(4) { 0 => 0, 1 => n - 1, _ => r.us(n) }; v[k] = false; v }
        _ => { let p = r.below(101); (0..n).map(|_| r.below(100) < p).collect() }
    }
}

/// Once per planned failure, then once without: each time from a fresh script log.
fn ask_all(st: &Step, expect: bool, f: &mut dyn FnMut(Option<(u8, u32)>) -> Res<bool>) {
    let n = sc().ans.len();
    let mut faults: Vec<Option<(u8, u32)>> = st.faults.iter().filter(|f| f.kind == FaultKind::Panic)
        .map(|f| Some((0, match f.at { At::Abs(x) => x, At::Frac(x) => ((x as u64 * n.max(1) as u64) >> 16) as u32 }))).collect();
    faults.push(None);
    for fault in faults {
        if !w().viol.is_empty() { return; }
        { let s = sc(); s.asked.clear(); s.wrong = false; s.eps_bad = false; s.itself = false; }
        let r = f(fault);
        let s = sc();
        if s.wrong { viol!("value", "{}: compared elements of different positions", w().opname); }
        if s.itself { viol!("value", "{}: compared an element of one operand with an element of that same operand", w().opname); }
        if s.eps_bad { viol!("value", "{}: an element was not given the caller's tolerance", w().opname); }
        if s.asked.iter().any(|&p| p as usize >= n) { viol!("value", "{}: asked about a position that does not exist", w().opname); }
        match r {
            Res::Ok(b) => {
                w().ev(0xb0 + b as u64);
                if b != expect {
                    viol!("value", "{}: answered {} although the elements answered {:?}", w().opname, b, s.ans);
                }
                if sc().ans.iter().any(|a| !a) { w().nontrivial += 1; w().stat("fault.scripted_disagreement"); }
            }
            Res::Injected => {}
            Res::Panic(m) => viol!("panic", "{}: panicked by itself: {}", w().opname, m),
            Res::Budget => {}
        }
    }
}

fn begin(st: &Step, n: usize) -> bool {
    let s = sc();
    s.ans = script(st.args[0], n);
    let e = st.args[1].unsigned_abs();
    s.eps = (1 + e % 1000, 1 + e / 1000 % 1000);
    s.ulps = (e % 77) as u32;
    s.alone = st.op.ends_with("_self");
    w().opname = name_of(AOPS, &st.op);
    s.ans.iter().all(|&a| a)
}

pub fn vec<N: ArrayLen<L> + ArrayLen<R> + ArrayLen<Vector<L, U3>>>(st: &Step) {
    let n = <N as rowcol::typenum::Unsigned>::to_usize();
    let all = begin(st, if st.op == "vv_eq" { 3 * n } else { n });
    let (a, b) = (Vector::<L, N>::generate(L::new), Vector::<L, N>::generate(L::other));
    let o = Vector::<R, N>::generate(R::new);
    match &st.op[..] {
        "v_eq" => ask_all(st, all, &mut |f| run(f, || a == b).0),
        "v_eq_other" => ask_all(st, all, &mut |f| run(f, || a == o).0),
        "v_eq_self" => ask_all(st, all, &mut |f| run(f, || a == a).0),
        "v_ne" => ask_all(st, !all, &mut |f| run(f, || a != b).0),
        "v_zero" => ask_all(st, all, &mut |f| run(f, || a.is_zero()).0),
        _ => {
            let x = Vector::<Vector<L, U3>, N>::generate(|i| Vector::generate(|k| L::new(3 * i + k)));
            let y = Vector::<Vector<L, U3>, N>::generate(|i| Vector::generate(|k| L::other(3 * i + k)));
            ask_all(st, all, &mut |f| run(f, || x == y).0)
        }
    }
    for (i, t) in a.iter().enumerate() { if t.p() as usize != i { viol!("intact", "{}: operand changed", w().opname); } }
    for (i, t) in o.iter().enumerate() { if t.p() as usize != i { viol!("intact", "{}: operand changed", w().opname); } }
}

pub fn mat<Ro: ArrayLen<Vector<L, Co>>, Co: ArrayLen<L>>(st: &Step) {
    let (r, c) = (<Ro as rowcol::typenum::Unsigned>::to_usize(), <Co as rowcol::typenum::Unsigned>::to_usize());
    let all = begin(st, r * c);
    let (a, b) = (Matrix::<L, Ro, Co>::generate(|(i, j)| L::new(i * c + j)), Matrix::<L, Ro, Co>::generate(|(i, j)| L::other(i * c + j)));
    let (e, q) = sc().eps;
    let u = sc().ulps;
    match &st.op[..] {
        "m_eq" => ask_all(st, all, &mut |f| run(f, || a == b).0),
        "m_eq_self" => ask_all(st, all, &mut |f| run(f, || a == a).0),
        "m_ne" => ask_all(st, !all, &mut |f| run(f, || a != b).0),
        "m_zero" => ask_all(st, all, &mut |f| run(f, || a.is_zero()).0),
        "m_rel" => ask_all(st, all, &mut |f| { let (x, y) = (Tok::new(e), Tok::new(q)); run(f, || a.relative_eq(&b, x, y)).0 }),
        "m_rel_self" => ask_all(st, all, &mut |f| { let (x, y) = (Tok::new(e), Tok::new(q)); run(f, || a.relative_eq(&a, x, y)).0 }),
        "m_ulps" => ask_all(st, all, &mut |f| { let x = Tok::new(e); run(f, || a.ulps_eq(&b, x, u)).0 }),
        "m_rel_ne" => ask_all(st, !all, &mut |f| { let (x, y) = (Tok::new(e), Tok::new(q)); run(f, || a.relative_ne(&b, x, y)).0 }),
        "m_ulps_ne" => ask_all(st, !all, &mut |f| { let x = Tok::new(e); run(f, || a.ulps_ne(&b, x, u)).0 }),
        _ => ask_all(st, true, &mut |f| run(f, || {
            type M<Ro, Co> = Matrix<L, Ro, Co>;
            <M<Ro, Co> as ApproxEq>::default_epsilon().val() == 11 && <M<Ro, Co> as ApproxEq>::default_max_relative().val() == 12 && <M<Ro, Co> as ApproxEq>::default_max_ulps() == 13
        }).0),
    }
    for (i, row) in a.rows_iter_ref().enumerate() { for (j, t) in row.iter().enumerate() { if t.p() as usize != i * c + j { viol!("intact", "{}: operand changed", w().opname); } } }
}
