//! Several simulated caller threads on shared and separate values (C09).
use crate::cx::Cx;
use crate::model::*;
use crate::cb::{mat_cb, vec_cb};
use crate::collect::collect;
use crate::iters::{ENDING, IOPS};
use crate::mops::*;
use crate::plan::*;
use crate::viol;
use crate::vops::*;
use crate::world::*;
use rowcol::matrix::iter::*;
use rowcol::prelude::*;
use rowcol::vector::{ArrayLen, Chunks, IntoIter};
use std::collections::VecDeque;
use std::marker::PhantomData;
use std::sync::Arc;
use std::sync::Mutex;

/// The harness must build even if a change makes a type thread-bound.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> { fn get(&self) -> &T { &self.0 } fn take(self) -> T { self.0 } }

struct Shared<N: VN> {
    v: VSt<N>,
    boxed: Mutex<Vec<Force<(IntoIter<Tok, N>, VecDeque<u64>)>>>,
    whole: Mutex<Vec<Force<(Vector<Tok, N>, Vec<u64>)>>>,
}

fn thread_op<N: VN>(sh: &Shared<N>, st: &Step) -> Cx {
    let mut cx = Cx::new(&st.faults);
    let a1 = st.args[1].unsigned_abs() as usize;
    match &st.op[..] {
        // hand a half-used iterator to whoever takes it next
        "send" => {
            w().opname = "send";
            let m = vals(st.args[0], N::LEN);
            let v = mkv::<N>(&m);
            let (r, ..) = run(None, move || {
                let mut it = v.into_iter();
                for _ in 0..a1 % (N::LEN + 1) { cb(Site::Closure); it.next(); }
                it
            });
            if let Res::Ok(it) = r {
                let left: VecDeque<u64> = m.into_iter().skip(a1 % (N::LEN + 1)).collect();
                sh.boxed.lock().unwrap().push(Force((it, left)));
                w().stat("handover.sent");
            }
        }
        "recv" => {
            w().opname = "recv";
            let got = sh.boxed.lock().unwrap().pop();
            if let Some(f) = got {
                let (mut it, mut m) = f.take();
                let (r, ..) = run(None, || {
                    let mut o = vec![];
                    for k in 0..a1 % 40 { cb(Site::Closure); o.push(if k % 2 == 0 { it.next_back() } else { it.next() }.map(|t| t.val())); }
                    (o, it.len())
                });
                match r {
                    Res::Ok((o, l)) => {
                        for (k, x) in o.into_iter().enumerate() {
                            let e = if k % 2 == 0 { m.pop_back() } else { m.pop_front() };
                            if x != e { viol!("value", "iterator handed to another thread gave {:?} instead of {:?}", x, e); }
                        }
                        if l != m.len() { viol!("value", "iterator handed to another thread has {} left instead of {}", l, m.len()); }
                    }
                    Res::Panic(p) => viol!("panic", "iterator handed to another thread panicked: {}", p),
                    _ => {}
                }
                w().stat("handover.received");
            }
        }
        "give" => {
            let m = vals(st.args[0], N::LEN);
            sh.whole.lock().unwrap().push(Force((mkv::<N>(&m), m)));
        }
        "got" => {
            w().opname = "got";
            let got = sh.whole.lock().unwrap().pop();
            if let Some(f) = got {
                let (v, m) = f.take();
                let (r, ..) = run(None, move || (v + &sh.v.x).into_iter().map(|t| { cb(Site::Closure); t.val() }).collect::<Vec<u64>>());
                match r {
                    Res::Ok(g) => if g != zip(&m, &sh.v.xm, fadd) { viol!("value", "vector handed to another thread gave {:?}", g); },
                    Res::Panic(p) => viol!("panic", "vector handed to another thread: {}", p),
                    _ => {}
                }
                w().stat("handover.received");
            }
        }
        op if op.starts_with("v:") => vop::<N>(&mut cx, &sh.v, &op[2..], &st.args),
        op if op.starts_with("vm:") => {
            // this thread's own value, changed in place
            let mut m = vals(st.args[0] ^ 5, N::LEN);
            let mut x = mkv::<N>(&m);
            let mut c = Cx::new(&st.faults);
            vmut::<N>(&mut c, &mut x, &mut m, &op[3..], &st.args);
        }
        op => other_op(op, st),
    }
    cx
}

fn program(seed: i64) -> Vec<Step> {
    let mut r = crate::rng::Rng::new(seed as u64);
    let mut v: Vec<Step> = (0..1 + r.us(5)).map(|_| {
        let op = loop { let o = *r.pick(IOPS); if !ENDING.contains(&o) { break o; } };
        Step { tid: 0, op: op.into(), args: vec![if r.chance(1, 5) { -1 - r.below(8) as i64 } else { r.below(5) as i64 }], faults: vec![] }
    }).collect();
    v.push(Step { tid: 0, op: r.pick(ENDING).to_string(), args: vec![0], faults: vec![] });
    v
}

/// Everything else the library offers, on this thread's own values.
#[inline(never)]
fn other_op(op: &str, st: &Step) {
    let (kind, name) = match op.split_once(':') { Some(x) => x, None => { viol!("harness", "bad thread op {}", op); return; } };
    let mut cx = Cx::new(&st.faults);
    let mut one = st.clone();
    one.op = name.into();
    let pick = st.args[2].unsigned_abs() as usize;
    match kind {
        "c" => conv_dispatch((pick % CONVS) as i64, &mut cx, name, &st.args),
        "k" if name.starts_with("vgen") => match pick % 3 { 0 => vec_cb::<U3>(&one), 1 => vec_cb::<U8>(&one), _ => vec_cb::<U1>(&one) },
        "k" => match pick % 3 { 0 => mat_cb::<U2, U3>(&one), 1 => mat_cb::<U3, U3>(&one), _ => mat_cb::<U4, U1>(&one) },
        "l" => {
            let n = match pick % 3 { 0 => 3, 1 => 4, _ => 8 };
            one.args = vec![[n, -2, -3, -4][st.args[3].unsigned_abs() as usize % 4], st.args[0], st.args[1] % 9, st.args[3] % 2];
            match n { 3 => collect::<U3>(&one), 4 => collect::<U4>(&one), _ => collect::<U8>(&one) }
        }
        "q" => {
            fn own<N: SQ>(cx: &mut Cx, name: &str, st: &Step) where Matrix<Tok, N, N>: StaticIdx {
                let mut m = vals(st.args[0] ^ 3, N::to_usize() * N::to_usize());
                let mut x = mkm::<N, N>(&m);
                sqmut::<N>(cx, &mut x, &mut m, name, &[st.args[0], st.args[1], 0, 0]);
            }
            match pick % 3 { 0 => own::<U2>(&mut cx, name, st), 1 => own::<U3>(&mut cx, name, st), _ => own::<U4>(&mut cx, name, st) }
        }
        "i" => {
            let p = program(st.args[0]);
            match name {
                "owned" => if pick % 2 == 0 { crate::iters::owned::<U5>(&p, st.args[1]) } else { crate::iters::owned::<U8>(&p, st.args[1]) },
                "chunks" => crate::iters::chunks((pick % 20) as i64, &p, st.args[1]),
                k => if pick % 2 == 0 { crate::iters::matrix::<U3, U4>(k, &p, st.args[1], pick) } else { crate::iters::matrix::<U3, U2>(k, &p, st.args[1], pick) },
            }
        }
        "n" => { w().opname = crate::vops::name_of(&["own", "collect", "owned", "lines", "fmt", "inplace", "callbacks", "select", "arith", "equal"], name); crate::nest::alone(name, st.args[0].unsigned_abs()) }
        "a" if name.starts_with('v') => if pick % 2 == 0 { crate::answers::vec::<U3>(&one) } else { crate::answers::vec::<U6>(&one) },
        "a" => if pick % 2 == 0 { crate::answers::mat::<U2, U3>(&one) } else { crate::answers::mat::<U3, U1>(&one) },
        "f" => {
            one.args = vec![(pick % 5) as i64, st.args[1].unsigned_abs() as i64 % 65536, st.args[3] % 2, -1, st.args[0]];
            if name.starts_with('v') { crate::fmtsim::fmt_vec::<U4>(&one, st.args[0] as u64) } else { crate::fmtsim::fmt_mat::<U2, U3>(&one, st.args[0] as u64) }
        }
        _ => viol!("harness", "bad thread op {}", op),
    }
}

pub fn threads<N: VN, R: MN<C>, C: MN<R>, S: SQ>(plan: &Plan, nthreads: usize) where Matrix<Tok, R, C>: StaticIdx {
    let v = Arc::new(Force(Shared::<N> { v: VSt::new(plan.shape[3], plan.shape[4]), boxed: Mutex::new(vec![]), whole: Mutex::new(vec![]) }));
    let m = Arc::new(Force(MSt::<R, C>::new(plan.shape[3] ^ 9, plan.shape[4] ^ 9)));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..nthreads {
        let mine: Vec<Step> = plan.steps.iter().filter(|s| s.tid == t).cloned().collect();
        let (v, m) = (v.clone(), m.clone());
        let body = move || {
            for st in &mine {
                if !w().viol.is_empty() { return; }
                if st.op.starts_with("m:") { let mut cx = Cx::new(&st.faults); mop::<R, C>(&mut cx, m.get(), &st.op[2..], &st.args); }
                else if st.op.starts_with("s:") { let mut cx = Cx::new(&st.faults); sqop::<S>(&mut cx, &st.op[2..], &st.args); }
                else if st.op.starts_with("x:") { let mut cx = Cx::new(&st.faults); mm_dispatch(st.args[2] % 8, &mut cx, &st.op[2..], &st.args); }
                else if st.op.starts_with("mm:") {
                    let mut z = vals(st.args[0] ^ 6, R::to_usize() * C::to_usize());
                    let mut x = mkm::<R, C>(&z);
                    let mut cx = Cx::new(&st.faults);
                    mmut::<R, C>(&mut cx, &mut x, &mut z, &st.op[3..], &st.args);
                }
                else { thread_op::<N>(v.get(), st); }
            }
        };
        bodies.push(Box::new(force_send(body)));
    }
    run_threads(bodies);
    v.get().v.intact();
    m.get().intact();
    w().opname = "drop shared";
}

fn force_send(f: impl FnOnce() + 'static) -> impl FnOnce() + Send { let f = Force(f); move || f.take()() }

// ------------------------------------------------- which types may cross threads

struct Probe<T: ?Sized>(PhantomData<T>);
trait NoSend { fn is_send(&self) -> bool { false } }
trait NoSync { fn is_sync(&self) -> bool { false } }
impl<T: ?Sized> NoSend for Probe<T> {}
impl<T: ?Sized> NoSync for Probe<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Send> Probe<T> { fn is_send(&self) -> bool { true } }
#[allow(dead_code)]
impl<T: ?Sized + Sync> Probe<T> { fn is_sync(&self) -> bool { true } }

pub fn probe_types() {
    use std::cell::Cell;
    use std::rc::Rc;
    macro_rules! want {
        ($t:ty, $send:expr, $sync:expr) => {{
            let p = Probe::<$t>(PhantomData);
            if p.is_send() != $send { viol!("send", "{} {} be handed to another thread", stringify!($t), if $send { "cannot" } else { "can wrongly" }); }
            if p.is_sync() != $sync { viol!("send", "{} {} be shared with another thread", stringify!($t), if $sync { "cannot" } else { "can wrongly" }); }
        }};
    }
    macro_rules! all {
        ($t:ty, $send:expr, $sync:expr) => {
            want!(Vector<$t, U0>, $send, $sync); want!(Vector<$t, U1>, $send, $sync); want!(Vector<$t, U4>, $send, $sync); want!(Vector<$t, U32>, $send, $sync);
            want!(Vector<Vector<$t, U2>, U3>, $send, $sync);
            want!(Matrix<$t, U2, U2>, $send, $sync); want!(Matrix<$t, U3, U5>, $send, $sync);
            want!(IntoIter<$t, U4>, $send, $sync); want!(Chunks<$t, U4, U2>, $send, $sync);
            // borrowing iterators hand out references (and clones made from them)
            want!(RowsIter<'static, $t, U2, U3>, $sync, $sync); want!(ColsIter<'static, $t, U2, U3>, $sync, $sync);
            want!(RowsIterRef<'static, $t, U2, U3>, $sync, $sync); want!(ColsIterRef<'static, $t, U2, U3>, $sync, $sync);
            want!(ColsIterRefInner<'static, $t, U2, U3>, $sync, $sync);
        };
    }
    all!(u8, true, true);
    all!(f64, true, true);
    all!(String, true, true);
    all!(Tok, true, true);
    all!(Cell<i32>, true, false);
    all!(Rc<i32>, false, false);
    all!(std::sync::MutexGuard<'static, i32>, false, true);
}
