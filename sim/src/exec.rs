//! Executes one plan in a fresh world.
use crate::cb::*;
use crate::collect::collect;
use crate::cx::Cx;
use crate::fmtsim::*;
use crate::iters;
use crate::model::vals;
use crate::mops::*;
use crate::plan::*;
use crate::rng::Rng;
use crate::threads;
use crate::viol;
use crate::vops::*;
use crate::world::*;
use crate::{with_len, with_shape, with_sq};
use rowcol::prelude::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering as AO;

pub struct Outcome { pub viol: Vec<Viol>, pub hash: u64, pub events: u64, pub nontrivial: u32, pub switches: u32, pub log: Vec<String> }

#[cfg_attr(rcfine, link_section = "rcown")]
static mut OPS: Option<BTreeMap<String, u64>> = None;
#[allow(static_mut_refs)]
pub fn opcounts() -> &'static mut BTreeMap<String, u64> { unsafe { OPS.get_or_insert_with(BTreeMap::new) } }

fn go() -> bool { w().viol.is_empty() }

#[inline(never)]
fn vec_run<N: VN>(p: &Plan) {
    let st = VSt::<N>::new(p.shape[1], p.shape[2]);
    for s in &p.steps { if !go() { return; } vop::<N>(&mut Cx::new(&s.faults), &st, &s.op, &s.args); }
}
#[inline(never)]
fn mat_run<R: MN<C>, C: MN<R>>(p: &Plan) {
    let st = MSt::<R, C>::new(p.shape[2], p.shape[3]);
    for s in &p.steps { if !go() { return; } mop::<R, C>(&mut Cx::new(&s.faults), &st, &s.op, &s.args); }
}
#[inline(never)]
fn vmut_run<N: VN>(p: &Plan) {
    let mut m = vals(p.shape[1], N::LEN);
    let mut x = mkv::<N>(&m);
    for s in &p.steps { if !go() { return; } vmut::<N>(&mut Cx::new(&s.faults), &mut x, &mut m, &s.op, &s.args); }
}
#[inline(never)]
fn mmut_run<R: MN<C>, C: MN<R>>(p: &Plan) where Matrix<Tok, R, C>: StaticIdx {
    let mut m = vals(p.shape[2], R::to_usize() * C::to_usize());
    let mut x = mkm::<R, C>(&m);
    for s in &p.steps { if !go() { return; } mmut::<R, C>(&mut Cx::new(&s.faults), &mut x, &mut m, &s.op, &s.args); }
}
#[inline(never)]
fn sqmut_run<N: SQ>(p: &Plan) where Matrix<Tok, N, N>: StaticIdx {
    let n = N::to_usize();
    let mut m = vals(p.shape[1], n * n);
    let mut x = mkm::<N, N>(&m);
    for s in &p.steps { if !go() { return; } sqmut::<N>(&mut Cx::new(&s.faults), &mut x, &mut m, &s.op, &s.args); }
}

fn body(p: &Plan) {
    let sh = &p.shape;
    match &p.kind[..] {
        #[cfg(feature = "k_vec")]
        "vec" => with_len!(sh[0], N => vec_run::<N>(p)),
        #[cfg(feature = "k_mat")]
        "mat" => with_shape!(sh[0], sh[1], R C => mat_run::<R, C>(p)),
        #[cfg(feature = "k_sq")]
        "sq" => for s in &p.steps { if !go() { return; } with_sq!(sh[0], N => sqop::<N>(&mut Cx::new(&s.faults), &s.op, &s.args)) },
        #[cfg(feature = "k_mm")]
        "mm" => for s in &p.steps { if !go() { return; } mm_dispatch(sh[0], &mut Cx::new(&s.faults), &s.op, &s.args) },
        #[cfg(feature = "k_conv")]
        "conv" => for s in &p.steps { if !go() { return; } conv_dispatch(sh[0], &mut Cx::new(&s.faults), &s.op, &s.args) },
        #[cfg(feature = "k_vmut")]
        "vmut" => with_len!(sh[0], N => vmut_run::<N>(p)),
        #[cfg(feature = "k_mmut")]
        "mmut" => with_shape!(sh[0], sh[1], R C => mmut_run::<R, C>(p)),
        #[cfg(feature = "k_sqmut")]
        "sqmut" => match sh[0] {
            0 => sqmut_run::<U0>(p), 1 => sqmut_run::<U1>(p), 2 => sqmut_run::<U2>(p), 3 => sqmut_run::<U3>(p), 4 => sqmut_run::<U4>(p),
            5 => sqmut_run::<U5>(p), 6 => sqmut_run::<U6>(p), 7 => sqmut_run::<U7>(p), 8 => sqmut_run::<U8>(p), 9 => sqmut_run::<U9>(p),
            11 => sqmut_run::<U11>(p), 16 => sqmut_run::<U16>(p), 19 => sqmut_run::<U19>(p), _ => sqmut_run::<U32>(p),
        },
        #[cfg(feature = "k_iterv")]
        "iterv" => with_len!(sh[0], N => iters::owned::<N>(&p.steps, sh[1])),
        #[cfg(feature = "k_chunks")]
        "chunks" => iters::chunks(sh[0], &p.steps, sh[1]),
        #[cfg(feature = "k_iterm")]
        "iterm" => with_shape!(sh[0], sh[1], R C => iters::matrix::<R, C>(iters::MKINDS[sh[2] as usize % 5], &p.steps, sh[3], sh[4] as usize)),
        #[cfg(feature = "k_collect")]
        "collect" => for s in &p.steps { if !go() { return; } with_len!(sh[0], N => collect::<N>(s)) },
        #[cfg(feature = "k_cbv")]
        "cbv" => for s in &p.steps { if !go() { return; } with_len!(sh[0], N => vec_cb::<N>(s)) },
        #[cfg(feature = "k_cbm")]
        "cbm" => for s in &p.steps { if !go() { return; } with_shape!(sh[0], sh[1], R C => mat_cb::<R, C>(s)) },
        #[cfg(feature = "k_mac")]
        "mac" => for s in &p.steps { if !go() { return; } crate::mac::mac(s) },
        #[cfg(feature = "k_ansv")]
        "ansv" => for s in &p.steps { if !go() { return; } with_len!(sh[0], N => crate::answers::vec::<N>(s)) },
        #[cfg(feature = "k_ansm")]
        "ansm" => for s in &p.steps { if !go() { return; } with_shape!(sh[0], sh[1], R C => crate::answers::mat::<R, C>(s)) },
        #[cfg(feature = "k_fmtm")]
        "fmtm" => for s in &p.steps {
            if !go() { return; }
            let seed = s.args[4] as u64;
            macro_rules! d { ($($a:pat, $b:pat => $r:ident $c:ident;)*) => { match (sh[0], sh[1]) { $(($a, $b) => fmt_mat::<$r, $c>(s, seed),)* _ => viol!("harness", "bad shape") } } }
            d! { 1, 1 => U1 U1; 1, 2 => U1 U2; 2, 1 => U2 U1; 2, 2 => U2 U2; 2, 3 => U2 U3; 3, 2 => U3 U2; 3, 3 => U3 U3; 4, 1 => U4 U1; 1, 5 => U1 U5; 5, 4 => U5 U4;
                 0, 0 => U0 U0; 0, 3 => U0 U3; 3, 0 => U3 U0; 1, 0 => U1 U0; 0, 1 => U0 U1; 8, 8 => U8 U8; 16, 2 => U16 U2; 1, 32 => U1 U32; 32, 1 => U32 U1;
                 4, 7 => U4 U7; 6, 1 => U6 U1; 11, 3 => U11 U3; 3, 10 => U3 U10; 2, 25 => U2 U25; 23, 2 => U23 U2; }
        },
        #[cfg(feature = "k_fmtv")]
        "fmtv" => for s in &p.steps {
            if !go() { return; }
            let seed = s.args[4] as u64;
            match sh[0] { 0 => fmt_vec::<U0>(s, seed), 1 => fmt_vec::<U1>(s, seed), 2 => fmt_vec::<U2>(s, seed), 3 => fmt_vec::<U3>(s, seed), 4 => fmt_vec::<U4>(s, seed),
                7 => fmt_vec::<U7>(s, seed), 16 => fmt_vec::<U16>(s, seed), _ => fmt_vec::<U32>(s, seed) }
        },
        #[cfg(feature = "k_thr")]
        "thr" => {
            let n = (sh[1] as usize).clamp(1, MAXT);
            match sh[0] {
                0 => threads::threads::<U3, U2, U3, U2>(p, n),
                1 => threads::threads::<U4, U3, U3, U3>(p, n),
                2 => threads::threads::<U8, U4, U3, U4>(p, n),
                3 => threads::threads::<U1, U1, U4, U1>(p, n),
                4 => threads::threads::<U2, U3, U2, U5>(p, n),
                5 => threads::threads::<U18, U2, U16, U6>(p, n),
                _ => threads::threads::<U32, U3, U11, U9>(p, n),
            }
        }
        #[cfg(feature = "k_tyv")]
        "tyv" => crate::types::vecs(p),
        #[cfg(feature = "k_tym")]
        "tym" => crate::types::mats(p),
        #[cfg(feature = "k_types")]
        "types" => threads::probe_types(),
        k => viol!("harness", "unknown kind {}", k),
    }
}

/// Executes the plan from a destructor that runs because its thread is unwinding.
fn while_unwinding(p: &Plan) {
    struct D<'a>(&'a Plan, &'a mut Option<std::thread::Result<()>>);
    impl<'a> Drop for D<'a> {
        fn drop(&mut self) { let p = self.0; *self.1 = Some(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(p)))); }
    }
    let mut out = None;
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _d = D(p, &mut out);
        std::panic::resume_unwind(Box::new(Injected));
    }));
    if let Some(Err(e)) = out { std::panic::resume_unwind(e) }
}

pub fn exec(p: &Plan) -> Outcome {
    w().reset();
    w().sw = p.sw.clone();
    w().hot = p.hot.clone();
    w().hrng = Rng::new(p.seed);
    let m = &p.mode[..];
    if m == "deny" { w().deny = true; }
    else if m == "fine" { w().fine = true; w().stat("env.fine_grained_schedule"); }
    else if m == "ring" { w().ring = true; w().stat("env.products_do_not_commute"); }
    else if m == "clonelies" { w().hostile = Hostile::CloneLies; }
    else if let Some(b) = m.strip_prefix("cmp:") {
        // cmp:<percent of answers that are lies>[:const<k>|:cyclic|:pairwise|:beat<k>]
        let mut it = b.split(':');
        w().hostile = Hostile::Cmp;
        w().hbias = it.next().and_then(|x| x.parse().ok()).unwrap_or(50);
        w().hkind = match it.next() {
            Some("cyclic") => Lie::Cyclic(p.seed),
            Some("pairwise") => Lie::Pairwise(p.seed),
            Some(k) if k.starts_with("beat") => Lie::Beat(k[4..].parse().unwrap_or(0)),
            Some(k) => Lie::Const(k.trim_start_matches("const").parse().unwrap_or(0)),
            None => Lie::Random,
        };
    }
    for c in &p.ctx {
        if c == "unwind" { w().unwinding = true; w().nontrivial += 1; w().stat("fault.already_unwinding"); }
        else if let Some(k) = c.strip_prefix("nest:") { w().nest = k.parse().unwrap_or(1); w().nestp = p.prop[1..].parse().unwrap_or(0); }
    }
    DENIED.store(0, AO::Relaxed);
    for s in &p.steps { *opcounts().entry(format!("{}:{}", p.kind, s.op)).or_insert(0) += 1; }
    // a panic that escapes every operation is the harness's own
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if w().unwinding { while_unwinding(p) } else { body(p) }));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into());
        if w().viol.is_empty() { viol!("panic", "{}: panic while preparing or reading back values through the public API: {}", w().opname, m); }
    }
    let w = w();
    let d = DENIED.load(AO::Relaxed);
    if p.mode == "deny" { w.nontrivial += 1; w.stat("fault.allocator_refusing"); }
    if d > 0 { viol!("alloc", "{}: asked the heap for memory ({} requests refused)", w.opname, d); }
    if w.viol.is_empty() && !w.dropfired {
        let l = w.live() + w.zlive.max(0) as usize;
        if l > 0 { viol!("own", "{}: {} elements were never dropped", w.opname, l); }
    }
    w.ev(w.live() as u64);
    Outcome { viol: w.viol.clone(), hash: w.hash, events: w.total, nontrivial: w.nontrivial, switches: w.switches, log: w.log.clone() }
}
