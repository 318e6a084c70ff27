//! Caller functions: how often, in what order and with what they are called (C07).
use crate::cx::short;
use crate::model::*;
use crate::mops::{mkm, rdm, MN};
use crate::plan::*;
use crate::viol;
use crate::vops::{mkv, name_of};
use crate::world::*;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;

pub const KOPS: &[&str] = &["vgen", "vgen_vec", "mgen", "map", "map_u64", "map_vec", "all", "any", "map_drop", "mgen_mat"];

/// How the run ended and which positions were called, in order.
pub fn check_log(op: &str, log: &[(usize, bool)], total: usize, stop: Option<usize>, injected: Option<u32>, done: bool) {
    // positions must be 0,1,2,... without repetition
    for (k, &(p, good)) in log.iter().enumerate() {
        if p != k { viol!("value", "{}: call {} was for position {} (calls so far {:?})", op, k, p, log.iter().map(|x| x.0).collect::<Vec<_>>()); return; }
        if !good { viol!("value", "{}: position {} was called with an element that is not its own", op, k); return; }
    }
    let expect = match injected {
        Some(a) => a as usize + 1,
        None if done => stop.map_or(total, |s| s + 1),
        None => return,
    };
    if log.len() != expect { viol!("value", "{}: {} calls instead of {}", op, log.len(), expect); }
}

fn inner(k: u64) -> u64 {
    // the caller's function uses the library itself
    let v = Vector::<u64, U3>::generate(|i| k + i as u64);
    let m = Matrix::<u64, U2, U2>::generate(|(i, j)| k + (2 * i + j) as u64).transposed();
    v.sum() + m.sum()
}

pub fn vec_cb<N>(st: &Step)
where N: ArrayLen<Tok> + ArrayLen<Vector<Tok, U2>> + ArrayLen<u64> {
    let n = <N as rowcol::typenum::Unsigned>::to_usize();
    let op = name_of(KOPS, &st.op);
    w().opname = op;
    let v = vals(st.args[0], n);
    let reent = st.args[1] % 3 == 0;
    let mut log: Vec<(usize, bool)> = Vec::with_capacity(1100);
    let fault = resolve(st, n);
    let (done, got) = {
        let log = &mut log;
        match op {
            "vgen" => {
                let (r, ..) = run(fault, || Vector::<Tok, N>::generate(|i| { log.push((i, true)); if reent { inner(i as u64); } cb(Site::Closure); Tok::new(v[i % v.len().max(1)]) }));
                fin(op, r, |x| x.as_slice().iter().map(|t| t.val()).collect())
            }
            _ => {
                let (r, ..) = run(fault, || Vector::<Vector<Tok, U2>, N>::generate(|i| { log.push((i, true)); cb(Site::Closure); mkv::<U2>(&[v[i % v.len().max(1)], 7]) }));
                fin(op, r, |x| x.as_slice().iter().map(|t| t[0].val()).collect())
            }
        }
    };
    let fired = w().th[w().cur].fired;
    check_log(op, &log, n, None, if fired { Some(fault.unwrap().1) } else { None }, done);
    if let Some(g) = got { if g != v { viol!("value", "{}: result {} instead of {}", op, short(&g), short(&v)); } }
}

pub fn resolve(st: &Step, n: usize) -> Option<(u8, u32)> {
    st.faults.iter().find(|f| f.kind == FaultKind::Panic).map(|f| (0, match f.at { At::Abs(x) => x, At::Frac(x) => ((x as u64 * n as u64) >> 16) as u32 }))
}

pub fn fin<R>(op: &str, r: Res<R>, rd: impl FnOnce(&R) -> Vec<u64>) -> (bool, Option<Vec<u64>>) {
    match r {
        Res::Ok(x) => { let g = rd(&x); for &v in &g { w().ev(v); } (true, Some(g)) }
        Res::Injected => (false, None),
        Res::Panic(m) => { viol!("panic", "{}: panicked by itself: {}", op, m); (false, None) }
        Res::Budget => (false, None),
    }
}

pub fn mat_cb<R: MN<C> + ArrayLen<Vector<Vector<Tok, U2>, C>>, C: MN<R> + ArrayLen<Vector<Tok, U2>>>(st: &Step) {
    let (r, c) = (<R as rowcol::typenum::Unsigned>::to_usize(), <C as rowcol::typenum::Unsigned>::to_usize());
    let n = r * c;
    let op = name_of(KOPS, &st.op);
    w().opname = op;
    let v = vals(st.args[0], n);
    let reent = st.args[1] % 3 == 0;
    let x = mkm::<R, C>(&v);
    let roots: Vec<u32> = (0..n).map(|k| x[(k / c, k % c)].root()).collect();
    let stop = if n > 0 && st.args[1] % 4 != 0 { Some(st.args[2] as usize % n) } else { None };
    let fault = resolve(st, n);
    let mut log: Vec<(usize, bool)> = Vec::with_capacity(1100);
    let pos = |i: usize, j: usize| if i < r && j < c { i * c + j } else { usize::MAX };
    let mine = |p: usize, t: &Tok| p < n && t.root() == roots[p] && t.val() == v[p];
    let mut expect = v.clone();
    let mut keep = true;
    let (done, got) = {
        let log = &mut log;
        match op {
            "mgen" => {
                let (q, ..) = run(fault, || Matrix::<Tok, R, C>::generate(|(i, j)| { let p = pos(i, j); log.push((p, true)); if reent { inner(p as u64); } cb(Site::Closure); Tok::new(v[p.min(n - 1)]) }));
                fin(op, q, |z| rdm(z))
            }
            "mgen_mat" => {
                let (q, ..) = run(fault, || Matrix::<u64, R, C>::generate(|(i, j)| { let p = pos(i, j); log.push((p, true)); cb(Site::Closure); v[p.min(n - 1)] }));
                fin(op, q, |z| (0..n).map(|k| z[(k / c, k % c)]).collect())
            }
            "map" => {
                let y = mkm::<R, C>(&v);
                let rt: Vec<u32> = (0..n).map(|k| y[(k / c, k % c)].root()).collect();
                expect = v.iter().map(|&x| fadd(x, 1)).collect();
                let (q, ..) = run(fault, || y.map(|(i, j), t| { let p = pos(i, j); log.push((p, p < n && t.root() == rt[p] && t.val() == v[p])); if reent { inner(p as u64); } cb(Site::Closure); Tok::new(t.val() + 1) }));
                fin(op, q, |z| rdm(z))
            }
            "map_drop" => {
                let y = mkm::<R, C>(&v);
                expect = vec![3; n];
                let (q, ..) = run(fault, || y.map(|(i, j), t| { log.push((pos(i, j), t.val() == v[pos(i, j).min(n - 1)])); cb(Site::Closure); drop(t); 3u64 }));
                fin(op, q, |z| (0..n).map(|k| z[(k / c, k % c)]).collect())
            }
            "map_u64" => {
                let y = mkm::<R, C>(&v);
                let (q, ..) = run(fault, || y.map(|(i, j), t| { log.push((pos(i, j), t.val() == v[pos(i, j).min(n - 1)])); cb(Site::Closure); t.val() }));
                fin(op, q, |z| (0..n).map(|k| z[(k / c, k % c)]).collect())
            }
            "map_vec" => {
                let y = mkm::<R, C>(&v);
                let (q, ..) = run(fault, || y.map(|(i, j), t| -> Vector<Tok, U2> { log.push((pos(i, j), t.val() == v[pos(i, j).min(n - 1)])); cb(Site::Closure); Vector::new([t, Tok::new(1)]) }));
                fin(op, q, |z| (0..n).map(|k| z[(k / c, k % c)][0].val()).collect())
            }
            "all" => {
                let (q, ..) = run(fault, || x.all(|(i, j), t| { let p = pos(i, j); log.push((p, mine(p, t))); if reent { inner(p as u64); } cb(Site::Closure); Some(p) != stop }));
                keep = false;
                expect = vec![stop.is_none() as u64];
                fin(op, q, |z| vec![*z as u64])
            }
            "any" => {
                let (q, ..) = run(fault, || x.any(|(i, j), t| { let p = pos(i, j); log.push((p, mine(p, t))); if reent { inner(p as u64); } cb(Site::Closure); Some(p) == stop }));
                keep = false;
                expect = vec![stop.is_some() as u64];
                fin(op, q, |z| vec![*z as u64])
            }
            _ => { viol!("harness", "bad callback op"); return; }
        }
    };
    let fired = w().th[w().cur].fired;
    check_log(op, &log, n, if keep { None } else { stop }, if fired { Some(fault.unwrap().1) } else { None }, done);
    if let Some(g) = got { if g != expect { viol!("value", "{}: result {} instead of {}", op, short(&g), short(&expect)); } }
    if rdm(&x) != v { viol!("intact", "{}: borrowed matrix changed", op); }
}
