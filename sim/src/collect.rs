//! Collecting from sources that end early, run on, lie or fail (C02).
use crate::cx::short;
use crate::model::*;
use crate::plan::*;
use crate::viol;
use crate::vops::{name_of, rdv};
use crate::world::*;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use std::cell::Cell;
use std::iter::FromIterator;
use std::rc::Rc;

pub const COPS: &[&str] = &["from_iter", "collect", "by_ref", "map", "filter", "zip", "chain", "nested", "into_iter_src", "refs", "rev"];
/// op args: [items available (-1 unbounded), seed, hint kind, resume after end]

#[derive(Default)]
struct Log { polls: Cell<usize>, gave: Cell<usize>, ended: Cell<bool>, after: Cell<bool>, dead: Cell<bool>, after_dead: Cell<bool> }

struct Src { v: Vec<u64>, avail: Option<usize>, hint: i64, resume: bool, log: Rc<Log>, _own: Tok }

impl Iterator for Src {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        let l = &self.log;
        if l.ended.get() { l.after.set(true); }
        if l.dead.get() { l.after_dead.set(true); }
        l.polls.set(l.polls.get() + 1);
        l.dead.set(true);
        cb(Site::Src);
        l.dead.set(false);
        let k = l.gave.get();
        if self.avail.map_or(false, |a| k >= a) && !(self.resume && l.ended.get()) {
            l.ended.set(true);
            return None;
        }
        l.gave.set(k + 1);
        Some(Tok::new(self.v[k % self.v.len()] + k as u64))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.avail.map(|a| a - self.log.gave.get().min(a));
        match self.hint {
            0 => (left.unwrap_or(usize::MAX), left),
            1 => (0, None),
            2 => (0, Some(0)),
            3 => (usize::MAX, None),
            4 => (usize::MAX, Some(usize::MAX)),
            5 => (1, Some(1)),
            6 => (64, Some(3)),
            7 => (32, Some(32)),
            _ => { let n = left.unwrap_or(9); (n / 2, Some(n * 2)) }
        }
    }
}
impl Drop for Src { fn drop(&mut self) { cb(Site::Drop); } }
/// claims an exact length it need not have
impl ExactSizeIterator for Src {}
impl DoubleEndedIterator for Src { fn next_back(&mut self) -> Option<Tok> { self.next() } }

struct IntoSrc(Option<Src>);
impl IntoIterator for IntoSrc {
    type Item = Tok;
    type IntoIter = Src;
    fn into_iter(mut self) -> Src { cb(Site::Src); self.0.take().unwrap() }
}

pub fn collect<N: ArrayLen<Tok> + ArrayLen<Vector<Tok, U2>> + 'static>(st: &Step)
where for<'x> N: ArrayLen<&'x Tok> {
    let n = <N as rowcol::typenum::Unsigned>::to_usize();
    let op = name_of(COPS, &st.op);
    w().opname = op;
    let per = if op == "nested" { 2 } else { 1 };
    let need = n * per;
    let avail: Option<usize> = match st.args[0] { -1 => None, -2 => Some(need), -3 => Some(need + 1), -4 => Some(need.saturating_sub(1)), -5 => Some(need * 2 + 3), x => Some(x as usize) };
    let v: Vec<u64> = vals(st.args[1], need + 4);
    let at = |k: usize| (v[k % v.len()] + k as u64) % P;
    let log = Rc::new(Log::default());
    let mk = || Src { v: v.clone(), avail, hint: st.args[2], resume: st.args[3] % 2 == 1, log: log.clone(), _own: Tok::new(1) };
    let fault = st.faults.first().map(|f| (kindno(f.kind), match f.at { At::Abs(x) => x, At::Frac(x) => ((x as u64 * (need as u64 + 2)) >> 16) as u32 }));
    if !w().sched_on { w().budget = w().total + 20_000; }
    if avail != Some(need) { w().nontrivial += 1; w().stat(match avail { None => "fault.source_unbounded", Some(a) if a < need => "fault.source_too_short", _ => "fault.source_too_long" }); }
    if st.args[2] != 0 { w().stat("fault.source_lies_about_length"); }
    let live0 = w().live();
    let mut kept: Option<Src> = None;
    let (r, ..) = match op {
        "from_iter" => { let s = mk(); run(fault, move || Vector::<Tok, N>::from_iter(s)) }
        "collect" => { let s = mk(); run(fault, move || s.collect::<Vector<Tok, N>>()) }
        "by_ref" => { kept = Some(mk()); let k = kept.as_mut().unwrap(); run(fault, move || k.by_ref().collect::<Vector<Tok, N>>()) }
        "map" => { let s = mk(); run(fault, move || s.map(|t| { cb(Site::Closure); t }).collect::<Vector<Tok, N>>()) }
        "filter" => { let s = mk(); run(fault, move || s.filter(|t| { cb(Site::Closure); t.val() < P }).collect::<Vector<Tok, N>>()) }
        "zip" => { let s = mk(); run(fault, move || s.zip(0..).map(|(t, _)| t).collect::<Vector<Tok, N>>()) }
        "chain" => { let s = mk(); run(fault, move || std::iter::empty().chain(s).collect::<Vector<Tok, N>>()) }
        "rev" => { let s = mk(); run(fault, move || s.rev().collect::<Vector<Tok, N>>()) }
        "into_iter_src" => { let s = IntoSrc(Some(mk())); run(fault, move || Vector::<Tok, N>::from_iter(s)) }
        "refs" => {
            // collecting borrowed items; sources of references behave the same
            let store: Vec<Tok> = (0..avail.unwrap_or(need + 3)).map(|k| Tok::new(at(k))).collect();
            let m = store.len();
            let mut polls = 0;
            let (r, ..) = run(None, || Vector::<&Tok, N>::from_iter(store.iter().inspect(|_| polls += 1)).as_slice().iter().map(|t| t.val()).collect::<Vec<u64>>());
            let e: Vec<u64> = (0..need.min(m)).map(at).collect();
            match r {
                Res::Ok(g) => {
                    if m < need || (m > need && cfg!(debug_assertions)) { viol!("value", "refs: accepted {} items for length {}", m, n); }
                    else if g != e { viol!("value", "refs: holds {} instead of {}", short(&g), short(&e)); }
                }
                Res::Panic(_) => if m == need || (m > need && !cfg!(debug_assertions)) { viol!("panic", "refs: refused {} items for length {}", m, n); },
                _ => {}
            }
            if polls > need + 1 { viol!("value", "refs: took {} items for length {}", polls, n); }
            return;
        }
        "nested" => {
            let mut s = mk();
            let (r, a, b) = run(fault, move || (0..n).map(|_| s.by_ref().take(2).collect::<Vector<Tok, U2>>()).collect::<Vector<Vector<Tok, U2>, N>>());
            let r = match r {
                Res::Ok(x) => {
                    let g: Vec<u64> = x.as_slice().iter().flat_map(|v| rdv(v)).collect();
                    let e: Vec<u64> = (0..need).map(at).collect();
                    if avail.map_or(false, |a| a < need) { viol!("value", "nested: accepted a source that was too short"); }
                    else if g != e { viol!("value", "nested: holds {} instead of {}", short(&g), short(&e)); }
                    drop(x);
                    return;
                }
                Res::Injected => Res::Injected,
                Res::Panic(m) => { if avail.map_or(true, |a| a >= need) { viol!("panic", "nested: panicked: {}", m); } Res::Panic(m) }
                Res::Budget => Res::Budget,
            };
            (r, a, b)
        }
        _ => { viol!("harness", "bad collect op"); return; }
    };
    let fired = w().th[w().cur].fired;
    let dropfault = fired && fault.map_or(false, |f| f.0 == 1);
    let surplus = avail.map_or(true, |a| a > need);
    let shortage = avail.map_or(false, |a| a < need);
    if op != "nested" {
        match &r {
            Res::Ok(x) => {
                let g = rdv(x);
                for &y in &g { w().ev(y); }
                let e: Vec<u64> = (0..need).map(at).collect();
                if fired { viol!("value", "{}: returned normally although the source panicked", op); }
                else if shortage { viol!("value", "{}: returned normally although the source had only {:?} of {} items", op, avail, need); }
                else if surplus && cfg!(debug_assertions) { viol!("value", "{}: surplus item went unnoticed with debug assertions on", op); }
                else if g != e { viol!("value", "{}: holds {} instead of the first {} items {}", op, short(&g), n, short(&e)); }
            }
            Res::Panic(m) => if !shortage && !(surplus && cfg!(debug_assertions)) { viol!("panic", "{}: panicked on a source with enough items: {}", op, m); },
            Res::Injected | Res::Budget => {}
        }
        if log.polls.get() > need + 1 { viol!("value", "{}: source polled {} times for {} items", op, log.polls.get(), need); }
    }
    if log.after.get() { viol!("value", "{}: source polled again after it reported its end", op); }
    if log.after_dead.get() { viol!("value", "{}: source polled again after it panicked", op); }
    let ok = r.is_ok();
    drop(r);
    drop(kept);
    let left = w().live() as i64 - live0 as i64;
    let left = if w().sched_on { 0 } else { left };
    if left != 0 && !dropfault { viol!("own", "{}: {} received items were never released (collection {})", op, left, if ok { "succeeded" } else { "failed" }); }
    if left < 0 { viol!("own", "{}: released something twice", op); }
    if !w().sched_on { w().budget = u64::MAX; }
}
