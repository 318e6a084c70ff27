//! Request histories on owned, chunk, row and column iterators (C03, C04).
use crate::cx::short;
use crate::model::*;
use crate::mops::{mkm, rdm, MN};
use crate::plan::*;
use crate::viol;
use crate::vops::{mkv, name_of};
use crate::world::*;
use rowcol::matrix::iter::*;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use std::collections::VecDeque;

pub const IOPS: &[&str] = &[
    "next", "next_back", "nth", "nth_back", "len", "take", "take_back", "skip", "skip_back", "step_by", "position", "rposition",
    "find", "rfind", "count", "last", "fold", "rfold", "collect", "rev_collect", "zip", "abandon", "peek", "max_steps",
];
/// those that use the iterator up
pub const ENDING: &[&str] = &["count", "last", "fold", "rfold", "collect", "rev_collect", "abandon"];

pub trait Item { fn val(&self) -> Vec<u64>; }
impl Item for Tok { fn val(&self) -> Vec<u64> { vec![Tok::val(self)] } }
impl<'a> Item for &'a Tok { fn val(&self) -> Vec<u64> { vec![Tok::val(self)] } }
impl<'a> Item for &'a [Tok] { fn val(&self) -> Vec<u64> { self.iter().map(|t| t.val()).collect() } }
impl<N: ArrayLen<Tok>> Item for Vector<Tok, N> { fn val(&self) -> Vec<u64> { self.as_slice().iter().map(|t| t.val()).collect() } }
pub enum Out { Item(Option<Vec<u64>>), Items(Vec<Vec<u64>>), Num(Option<usize>), Done }

pub trait DynIt {
    fn op(&mut self, op: &str, k: usize, fault: Option<(u8, u32)>) -> (Res<Out>, Vec<Vec<u64>>, bool);
    fn len(&self) -> usize;
    fn hint(&self) -> (usize, Option<usize>);
}

pub struct It<I, F> { pub it: Option<I>, pub rd: F }

fn fired() -> bool { let w = w(); w.th[w.cur].fired }

impl<I, F> DynIt for It<I, F> where I: DoubleEndedIterator + ExactSizeIterator, F: Fn(I::Item) -> Vec<u64> {
    fn len(&self) -> usize { self.it.as_ref().unwrap().len() }
    fn hint(&self) -> (usize, Option<usize>) { self.it.as_ref().unwrap().size_hint() }
    fn op(&mut self, op: &str, k: usize, fault: Option<(u8, u32)>) -> (Res<Out>, Vec<Vec<u64>>, bool) {
        let rd = &self.rd;
        let mut got: Vec<I::Item> = Vec::with_capacity(64);
        let g = &mut got;
        macro_rules! item { ($r:expr) => {{ let (r, ..) = $r; let f = fired(); (map(r, |x: Option<I::Item>| Out::Item(x.map(rd))), vec![], f) }} }
        macro_rules! items { ($r:expr) => {{
            let (r, ..) = $r;
            let f = fired();
            let vs: Vec<Vec<u64>> = got.drain(..).map(rd).collect();
            (map(r, |_| Out::Items(vs.clone())), vs, f)
        }} }
        macro_rules! num { ($r:expr) => {{ let (r, ..) = $r; let f = fired(); (map(r, |x: Option<usize>| Out::Num(x)), vec![], f) }} }
        if ENDING.contains(&op) {
            let it = self.it.take().unwrap();
            return match op {
                "count" => num!(run(fault, move || Some(it.count()))),
                "last" => item!(run(fault, move || it.last())),
                "fold" => items!(run(fault, move || it.fold((), |_, x| { cb(Site::Closure); g.push(x) }))),
                "rfold" => items!(run(fault, move || it.rfold((), |_, x| { cb(Site::Closure); g.push(x) }))),
                "collect" => items!(run(fault, move || for x in it { g.push(x) })),
                "rev_collect" => items!(run(fault, move || it.rev().for_each(|x| { cb(Site::Closure); g.push(x) }))),
                _ => items!(run(fault, move || drop(it))),
            };
        }
        let it = self.it.as_mut().unwrap();
        match op {
            "next" => item!(run(fault, || it.next())),
            "next_back" => item!(run(fault, || it.next_back())),
            "nth" => item!(run(fault, || it.nth(k))),
            "nth_back" => item!(run(fault, || it.nth_back(k))),
            "skip" => item!(run(fault, || it.by_ref().skip(k).next())),
            "skip_back" => item!(run(fault, || it.by_ref().rev().skip(k).next())),
            "take" => items!(run(fault, || for x in it.by_ref().take(k) { if g.len() < 64 { g.push(x) } else { break } })),
            "take_back" => items!(run(fault, || for x in it.by_ref().rev().take(k) { if g.len() < 64 { g.push(x) } else { break } })),
            "step_by" => items!(run(fault, || for x in it.by_ref().step_by(k.max(1)).take(2) { g.push(x) })),
            "max_steps" => items!(run(fault, || it.by_ref().take(2).for_each(|x| { cb(Site::Closure); g.push(x) }))),
            "zip" => items!(run(fault, || for (_, x) in (0..k.min(40)).zip(it.by_ref()) { if g.len() < 64 { g.push(x) } else { break } })),
            "position" => { let mut c = 0; num!(run(fault, || it.position(|_| { cb(Site::Closure); c += 1; c == k.wrapping_add(1) }))) }
            "rposition" => { let mut c = 0; num!(run(fault, || it.rposition(|_| { cb(Site::Closure); c += 1; c == k.wrapping_add(1) }))) }
            "find" => { let mut c = 0; item!(run(fault, || it.find(|_| { cb(Site::Closure); c += 1; c == k.wrapping_add(1) }))) }
            "rfind" => { let mut c = 0; item!(run(fault, || it.rfind(|_| { cb(Site::Closure); c += 1; c == k.wrapping_add(1) }))) }
            _ => (Res::Ok(Out::Done), vec![], false),
        }
    }
}

fn map<A, B>(r: Res<A>, f: impl FnOnce(A) -> B) -> Res<B> {
    match r { Res::Ok(a) => Res::Ok(f(a)), Res::Injected => Res::Injected, Res::Panic(m) => Res::Panic(m), Res::Budget => Res::Budget }
}

fn showi(x: &Option<Vec<u64>>) -> String { match x { None => "None".into(), Some(v) => short(v) } }

/// Drives one iterator through the planned requests, checking it against a deque.
/// `lossless`: a planned failure is a destructor of a skipped element (owned iterators);
/// otherwise it is a clone of a requested line.
pub fn drive(it: &mut dyn DynIt, mut m: VecDeque<Vec<u64>>, steps: &[Step]) {
    fn check_len(it: &dyn DynIt, m: &VecDeque<Vec<u64>>) {
        let (l, h) = (it.len(), it.hint());
        if l != m.len() { viol!("value", "after {}: len() is {} with {} items to come", w().opname, l, m.len()); }
        if h != (m.len(), Some(m.len())) { viol!("value", "after {}: size_hint() is {:?} with {} items to come", w().opname, h, m.len()); }
    }
    w().opname = "new";
    // a panic escaping len()/size_hint() is the code's own
    macro_rules! lens { () => {{
        let (r, ..) = run(None, || check_len(it, &m));
        if let Res::Panic(p) = r { viol!("panic", "after {}: len()/size_hint() panicked: {}", w().opname, p); }
        if !w().viol.is_empty() { return; }
    }} }
    lens!();
    for st in steps {
        if !w().viol.is_empty() { return; }
        let op = name_of(IOPS, &st.op);
        w().opname = op;
        let k0 = st.args[0];
        let l = m.len();
        // negative arguments name distances from the far end or extreme values
        let k: usize = match k0 { x if x >= 0 => x as usize, -1 => l, -2 => l + 1, -3 => usize::MAX, -4 => usize::MAX - 1, -5 => l.saturating_sub(1), -6 => usize::MAX / 2 + 1, -7 => usize::MAX - l, _ => 33 };
        if k > 32 { w().stat("fault.overstepping_request"); w().nontrivial += 1; }
        if l == 0 { w().stat("fault.request_after_end"); }
        if op == "abandon" && l > 0 { w().stat("fault.iterator_abandoned"); w().nontrivial += 1; }
        let back = matches!(op, "next_back" | "nth_back" | "take_back" | "skip_back" | "rposition" | "rfind" | "rfold" | "rev_collect" | "last");
        // what the request should deliver, and how many items it takes off which end
        let pop = |m: &mut VecDeque<Vec<u64>>| if back { m.pop_back() } else { m.pop_front() };
        let mut after = m.clone();
        let mut exp_item: Option<Option<Vec<u64>>> = None;
        let mut exp_items: Option<Vec<Vec<u64>>> = None;
        let mut exp_num: Option<Option<usize>> = None;
        match op {
            "next" | "next_back" => exp_item = Some(pop(&mut after)),
            "nth" | "nth_back" | "skip" | "skip_back" | "find" | "rfind" => {
                for _ in 0..k.min(l) { pop(&mut after); }
                exp_item = Some(pop(&mut after));
            }
            "take" | "take_back" | "zip" => {
                let k = if op == "zip" { k.min(40) } else { k };
                exp_items = Some((0..k.min(l)).map(|_| pop(&mut after).unwrap()).collect());
            }
            "max_steps" => exp_items = Some((0..2.min(l)).map(|_| pop(&mut after).unwrap()).collect()),
            "step_by" => {
                let mut v = vec![];
                if let Some(x) = pop(&mut after) { v.push(x); }
                let s = k.max(1);
                if v.len() == 1 {
                    for _ in 0..(s - 1).min(l) { pop(&mut after); }
                    if let Some(x) = pop(&mut after) { v.push(x); }
                }
                exp_items = Some(v);
            }
            "position" | "rposition" => {
                for _ in 0..k.min(l) { pop(&mut after); }
                let hit = pop(&mut after).is_some();
                exp_num = Some(if !hit { None } else if back { Some(l - 1 - k) } else { Some(k) });
            }
            "count" => exp_num = Some(Some(l)),
            "last" => exp_item = Some(m.back().cloned()),
            "fold" | "collect" => exp_items = Some(m.iter().cloned().collect()),
            "rfold" | "rev_collect" => exp_items = Some(m.iter().rev().cloned().collect()),
            _ => {}
        }
        let ending = ENDING.contains(&op);
        let fault = st.faults.first().map(|f| (kindno(f.kind), match f.at { At::Abs(x) => x, At::Frac(x) => if x % 3 == 0 { x / 3 % 40 } else { x % 8 } }));
        let (r, got, fired) = it.op(op, k, fault);
        match r {
            Res::Ok(out) => {
                match out {
                    Out::Item(x) => {
                        w().ev(x.as_ref().map_or(1, |v| v.iter().fold(5u64, |a, b| a.wrapping_mul(31) ^ b)));
                        if let Some(e) = exp_item { if e != x { viol!("value", "{}({}) gave {} instead of {}", op, k, showi(&x), showi(&e)); } }
                    }
                    Out::Items(x) => if let Some(e) = exp_items { if e != x { viol!("value", "{}({}) gave {:?} instead of {:?}", op, k, x, e); } },
                    Out::Num(x) => if let Some(e) = exp_num { if e != x { viol!("value", "{}({}) gave {:?} instead of {:?}", op, k, x, e); } },
                    Out::Done => {}
                }
                if ending || !w().viol.is_empty() { return; }
                m = after;
                lens!();
            }
            Res::Injected => {
                if let (true, Some(e)) = (matches!(op, "fold" | "rfold" | "collect" | "rev_collect"), &exp_items) {
                    if !e.starts_with(&got) { viol!("value", "{} was interrupted after delivering {:?} instead of {:?}", op, got, e); }
                }
                if ending { return; }
                debug_assert!(fired);
                let most = l - after.len();
                let l2 = { let (r, ..) = run(None, || it.len()); match r { Res::Ok(x) => x, Res::Panic(p) => { viol!("panic", "len() after an interrupted {}: {}", op, p); return; } _ => return } };
                let least = got.len();
                if l2 > l - least || l2 < l - most {
                    viol!("value", "{}({}) was interrupted with {} items to come and left {} (it may have taken {} to {})", op, k, l, l2, least, most);
                    return;
                }
                // delivered ones must be right, the rest must be a contiguous run of the old
                for x in &got { let e = pop(&mut m).unwrap(); if *x != e && op != "step_by" { viol!("value", "{}({}) delivered {:?} instead of {:?}", op, k, x, e); } }
                while m.len() > l2 { pop(&mut m); }
                w().stat("probe.iterator_used_after_panic");
                lens!();
            }
            Res::Panic(p) => { viol!("panic", "{}({}) panicked by itself: {}", op, k, p); return; }
            Res::Budget => return,
        }
    }
}

pub fn owned<N: ArrayLen<Tok>>(steps: &[Step], seed: i64) {
    let n = N::to_usize();
    let v = vals(seed, n);
    let mut it = It { it: Some(mkv::<N>(&v).into_iter()), rd: |t: Tok| vec![t.val()] };
    drive(&mut it, v.iter().map(|&x| vec![x]).collect(), steps);
}

macro_rules! chunk_pairs {
    ($($i:expr => $n:ident $c:ident;)*) => {
        pub const CHUNKS: usize = [$($i),*].len();
        pub fn chunks(k: i64, steps: &[Step], seed: i64) {
            match k { $($i => {
                let (n, c) = (<$n as rowcol::typenum::Unsigned>::USIZE, <$c as rowcol::typenum::Unsigned>::USIZE);
                let v = vals(seed, n);
                let mut it = It { it: Some(mkv::<$n>(&v).into_chunks::<$c>()), rd: |t: Vector<Tok, $c>| Item::val(&t) };
                drive(&mut it, v.chunks(c).map(|x| x.to_vec()).collect(), steps);
            })* _ => viol!("harness", "bad chunk pair") }
        }
    };
}
chunk_pairs! {
    0 => U1 U1; 1 => U2 U1; 2 => U2 U2; 3 => U3 U1; 4 => U3 U3; 5 => U4 U1; 6 => U4 U2; 7 => U4 U4; 8 => U6 U2; 9 => U6 U3;
    10 => U6 U1; 11 => U6 U6; 12 => U8 U2; 13 => U8 U4; 14 => U9 U3; 15 => U10 U5; 16 => U10 U2; 17 => U12 U3; 18 => U12 U4; 19 => U12 U6;
    20 => U0 U1; 21 => U0 U3; 22 => U15 U5; 23 => U16 U4; 24 => U18 U6; 25 => U20 U4; 26 => U24 U8; 27 => U25 U5; 28 => U30 U10; 29 => U32 U8;
    30 => U32 U2; 31 => U32 U32; 32 => U32 U1; 33 => U28 U7; 34 => U27 U9; 35 => U14 U7; 36 => U21 U7; 37 => U5 U5; 38 => U22 U11; 39 => U26 U13;
    40 => U7 U7; 41 => U8 U1; 42 => U8 U8; 43 => U16 U2; 44 => U16 U8; 45 => U16 U16; 46 => U20 U5; 47 => U24 U3; 48 => U32 U4; 49 => U32 U16; 50 => U18 U2; 51 => U30 U3; 52 => U31 U31; 53 => U31 U1;
}

pub const MKINDS: &[&str] = &["rows", "cols", "rows_ref", "cols_ref", "col_inner"];

pub fn matrix<R: MN<C>, C: MN<R>>(kind: &str, steps: &[Step], seed: i64, col: usize) {
    let (r, c) = (R::to_usize(), C::to_usize());
    let v = vals(seed, r * c);
    let x = mkm::<R, C>(&v);
    let rows: VecDeque<Vec<u64>> = (0..r).map(|i| v[i * c..(i + 1) * c].to_vec()).collect();
    let t = transpose(&v, r, c);
    let cols: VecDeque<Vec<u64>> = (0..c).map(|j| t[j * r..(j + 1) * r].to_vec()).collect();
    match kind {
        "rows" => drive(&mut It { it: Some(x.rows_iter()), rd: |l: Vector<Tok, C>| Item::val(&l) }, rows, steps),
        "cols" => drive(&mut It { it: Some(x.cols_iter()), rd: |l: Vector<Tok, R>| Item::val(&l) }, cols, steps),
        "rows_ref" => drive(&mut It { it: Some(x.rows_iter_ref()), rd: |l: &[Tok]| Item::val(&l) }, rows, steps),
        "cols_ref" => drive(&mut It { it: Some(x.cols_iter_ref()), rd: |l: ColsIterRefInner<Tok, R, C>| l.map(|t| t.val()).collect() }, cols, steps),
        _ => {
            if c == 0 { return; }
            let j = col % c;
            let it = x.cols_iter_ref().nth(j).unwrap();
            drive(&mut It { it: Some(it), rd: |t: &Tok| vec![t.val()] }, cols[j].iter().map(|&x| vec![x]).collect(), steps);
        }
    }
    if rdm(&x) != v { viol!("intact", "{}: the matrix changed under its iterator", kind); }
}
