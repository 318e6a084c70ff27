//! Caller code that itself uses vectors and matrices while it is being called
//! back: at planned callbacks a small piece of rowcol work on values of its own
//! runs to completion, and its results are checked on the spot.
use crate::rng::mix;
use crate::viol;
use crate::world::*;
use rowcol::prelude::*;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::cell::Cell;

thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
fn count(by: i64) -> i64 { LIVE.with(|l| { l.set(l.get() + by); l.get() }) }
/// An element that is counted while it exists.
#[derive(Debug)]
struct Cnt(u64);
impl Cnt { fn new(v: u64) -> Cnt { count(1); Cnt(v) } }
impl Clone for Cnt { fn clone(&self) -> Cnt { Cnt::new(self.0) } }
impl Drop for Cnt { fn drop(&mut self) { count(-1); } }

pub struct Bad(&'static str, &'static str);
pub type R = Result<(), Bad>;
macro_rules! want { ($c:expr, $e:expr, $m:expr) => { if !$e { return Err(Bad($c, $m)); } } }

fn own(k: u64) -> R {
    let a = count(0);
    {
        let v: Vector<Cnt, U4> = (0..4).map(|i| Cnt::new(k + i)).collect();
        let mut it = v.clone().into_iter();
        match k % 4 { 0 => drop(it.next()), 1 => drop(it.next_back()), 2 => drop(it.nth(1)), _ => {} }
        drop(it);
        let m: Matrix<Cnt, U2, U2> = v.into();
        let t = m.transposed();
        drop(t.map(|_, x| x.0));
        drop(m.rows_iter().next());
    }
    want!("own", count(0) == a, "elements lost or dropped twice by vectors the caller uses during a callback");
    let r = catch_unwind(AssertUnwindSafe(|| { let v: Vector<Cnt, U4> = (0..k % 4).map(Cnt::new).collect(); drop(v) }));
    want!("own", r.is_err() && count(0) == a, "a failed collect during a callback did not release what it received");
    Ok(())
}
fn collect(k: u64) -> R {
    let mut polled = 0;
    let v: Vector<u64, U4> = (0..4).map(|i| { polled += 1; k + i }).collect();
    want!("value", *v == [k, k + 1, k + 2, k + 3] && polled == 4, "collecting during a callback gave the wrong items");
    let r = catch_unwind(AssertUnwindSafe(|| { let v: Vector<u64, U3> = (0..k % 3).collect(); v }));
    want!("value", r.is_err(), "a source that is too short was accepted during a callback");
    Ok(())
}
fn owned(k: u64) -> R {
    let v = Vector::<u64, U6>::new([k, k + 1, k + 2, k + 3, k + 4, k + 5]);
    let mut it = v.into_iter();
    let x = (it.next(), it.next_back(), it.len(), it.nth(1), it.next_back(), it.next(), it.next(), it.next_back());
    want!("value", x == (Some(k), Some(k + 5), 4, Some(k + 2), Some(k + 4), Some(k + 3), None, None), "an owned iterator used during a callback went wrong");
    let mut c = v.into_chunks::<U2>();
    want!("value", c.next().map(|x| *x) == Some([k, k + 1]) && c.next_back().map(|x| *x) == Some([k + 4, k + 5]) && c.len() == 1, "a chunk iterator used during a callback went wrong");
    Ok(())
}
fn lines(k: u64) -> R {
    let m = Matrix::<u64, U2, U3>::new([[k, k + 1, k + 2], [k + 3, k + 4, k + 5]]);
    want!("value", m.rows_iter().last().map(|x| *x) == Some([k + 3, k + 4, k + 5]) && m.cols_iter().nth(1).map(|x| *x) == Some([k + 1, k + 4]), "a row or column iterator used during a callback went wrong");
    let mut it = m.cols_iter_ref();
    let mut c = it.next_back().unwrap();
    want!("value", c.next_back() == Some(&(k + 5)) && c.next() == Some(&(k + 2)) && c.next().is_none() && it.len() == 2, "a column iterator used during a callback went wrong");
    want!("value", m.rows_iter_ref().rev().map(|r| r[0]).eq(vec![k + 3, k]), "a row iterator used during a callback went wrong");
    Ok(())
}
fn fmt(k: u64) -> R {
    let (mut s, mut t) = (String::new(), String::new());
    let _ = &mut t;
    let k = k % 10;
    let r = write!(s, "{:?} {:?}", Vector::<u64, U2>::new([k, 7]), Matrix::<u64, U2, U1>::new([[k], [7]]));
    want!("value", r.is_ok() && s == format!("Vector[{}, 7] Matrix[[{}], [7]]", k, k), "Debug formatting during a callback went wrong");
    if cfg!(feature = "core") { return Ok(()); }
    #[cfg(not(feature = "core"))]
    let r = write!(t, "{}", Matrix::<u64, U2, U2>::new([[k, 10], [3, k]]));
    want!("value", r.is_ok() && t == format!("⎡{} 10⎤\n⎣3 {} ⎦", k, k), "Display formatting during a callback went wrong");
    Ok(())
}
fn inplace(k: u64) -> R {
    let mut v = Vector::<u64, U3>::new([k, 1, 2]);
    v += Vector::new([1, 1, 1]);
    v *= 2;
    v.clamp(0, k + 3);
    v[1] += 5;
    want!("torn", *v == [(2 * k + 2).min(k + 3), (4).min(k + 3) + 5, (6).min(k + 3)], "in-place updates during a callback went wrong");
    let mut m = Matrix::<u64, U2, U2>::new([[k, 1], [2, 3]]);
    m.transpose();
    m *= Matrix::identity();
    m -= Matrix::new([[0, 1], [1, 0]]);
    want!("torn", m[(0, 0)] == k && m[(0, 1)] == 1 && m[(1, 0)] == 0 && m[(1, 1)] == 3, "in-place updates of a matrix during a callback went wrong");
    Ok(())
}
fn callbacks(k: u64) -> R {
    let mut n = 0;
    let m = Matrix::<u64, U3, U2>::generate(|(i, j)| { n += 1; k + 10 * i as u64 + j as u64 });
    want!("value", n == 6 && m[(2, 1)] == k + 21 && m[(0, 1)] == k + 1, "generate during a callback went wrong");
    let q = m.map(|(i, j), x| x - 10 * i as u64 - j as u64);
    want!("value", q.all(|_, x| *x == k) && !q.any(|_, x| *x != k), "map, all or any during a callback went wrong");
    let v = Vector::<u64, U5>::generate(|i| k ^ i as u64);
    want!("value", v.iter().enumerate().all(|(i, x)| *x == k ^ i as u64), "Vector::generate during a callback went wrong");
    Ok(())
}
fn select(k: u64) -> R {
    let v = Vector::<u64, U4>::new([k, k + 3, k + 1, k + 2]);
    want!("select", v.max() == k + 3 && v.min() == k && v.max_by(|a, b| b.cmp(a)) == k && v.min_by(|a, b| b.cmp(a)) == k + 3, "max or min during a callback went wrong");
    want!("select", *v.clamped(k + 1, k + 2) == [k + 1, k + 2, k + 1, k + 2], "clamped during a callback went wrong");
    let m = Matrix::<u64, U2, U2>::new([[k, k + 3], [k + 1, k + 2]]);
    want!("select", m.max() == k + 3 && m.min_by(|a, b| a.cmp(b)) == k, "max or min of a matrix during a callback went wrong");
    Ok(())
}
fn arith(k: u64) -> R {
    let k = (k % 1000) as i64 + 1;
    let a = Vector::<i64, U3>::new([k, 2, 3]);
    let b = Vector::<i64, U3>::new([1, k, 1]);
    want!("value", *(a + &b) == [k + 1, k + 2, 4] && a.dot(&b) == 3 * k + 3 && a.sum() == k + 5 && *a.cross(&b) == [2 - 3 * k, 3 - k, k * k - 2], "vector arithmetic during a callback went wrong");
    let m = Matrix::<i64, U2, U3>::new([[k, 0, 1], [0, 1, 0]]);
    let p = &m * m.transposed();
    want!("value", p == Matrix::new([[k * k + 1, 0], [0, 1]]) && *(m * a) == [k * k + 3, 2], "a matrix product during a callback went wrong");
    want!("value", Matrix::<i64, U2, U2>::new([[1, k], [0, 1]]).pow(5) == Matrix::new([[1, 5 * k], [0, 1]]), "a matrix power during a callback went wrong");
    let f = k as f64;
    let d = Matrix::<f64, U4, U4>::new([[0.0, 2.0, 0.0, 0.0], [4.0, f, 0.0, 0.0], [0.0, 0.0, 0.0, 0.5], [0.0, 0.0, 1.0, f]]);
    let e = Matrix::<f64, U4, U4>::new([[2.0, f, 0.0, 0.0], [0.0, 4.0, 0.0, 0.0], [0.0, 0.0, 0.5, f], [0.0, 0.0, 0.0, 1.0]]);
    want!("value", e.determinant() == 4.0 && d.inverse().map(|i| i * d == Matrix::identity()) == Some(true), "a determinant or inverse during a callback went wrong");
    Ok(())
}
fn equal(k: u64) -> R {
    use approx::ApproxEq;
    let a = Matrix::<u64, U2, U2>::new([[k, 1], [2, 3]]);
    let b = Matrix::<u64, U2, U2>::new([[k, 1], [2, 4]]);
    want!("value", a == a.clone() && a != b && a.rows_iter().next() == b.rows_iter().next(), "equality during a callback went wrong");
    let f = Matrix::<f64, U1, U2>::new([[1.0, k as f64]]);
    want!("value", f.relative_eq(&f, 0.0, 0.0) && !f.ulps_eq(&(f * 2.0), 0.0, 1) && !num::Zero::is_zero(&f), "approximate equality during a callback went wrong");
    Ok(())
}

pub const PIECES: &[(&str, fn(u64) -> R)] = &[("own", own), ("collect", collect), ("owned", owned), ("lines", lines), ("fmt", fmt), ("inplace", inplace),
    ("callbacks", callbacks), ("select", select), ("arith", arith), ("equal", equal)];

fn report(f: fn(u64) -> R, v: u64, of: &str) {
    match catch_unwind(AssertUnwindSafe(|| f(v))) {
        Ok(Ok(())) => {}
        Ok(Err(Bad(c, m))) => viol!(c, "{}: {}", of, m),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into());
            viol!("panic", "{}: rowcol used from inside a callback panicked: {}", of, m)
        }
    }
}

/// Runs one piece; which one follows from the plan's property and the callback's number.
pub fn fire(prop: u8, k: u64) {
    let _g = AllowAlloc::new();
    let x = mix(k ^ 0x6e657374);
    let own: &[fn(u64) -> R] = match prop { 1 => &[own], 2 => &[collect], 3 => &[owned], 4 => &[lines], 5 => &[fmt], 6 => &[inplace], 7 => &[callbacks, select], 8 => &[arith, select], 11 => &[select], 12 => &[equal], _ => &[] };
    let v = (x >> 8) % 5000 + 8;
    let any = PIECES[(x >> 32) as usize % PIECES.len()].1;
    if own.is_empty() { report(any, v, &format!("{} running", w().opname)); }
    else if x % 3 > 0 { report(own[(x >> 48) as usize % own.len()], v, &format!("{} running", w().opname)); }
    // what another property is about: only its effect on the interrupted operation counts here
    else { let _ = catch_unwind(AssertUnwindSafe(|| any(v))); }
}

/// A piece as one of several threads' own work, on plain numbers.
pub fn alone(name: &str, k: u64) {
    let f = match PIECES.iter().find(|p| p.0 == name) { Some(p) => p.1, None => { viol!("harness", "bad piece {}", name); return; } };
    let (r, ..) = run(None, || f(k % 5000 + 8));
    match r {
        Res::Ok(Ok(())) | Res::Injected | Res::Budget => {}
        Res::Ok(Err(Bad(c, m))) => viol!(c, "while other threads ran: {}", m),
        Res::Panic(m) => viol!("panic", "{} with other threads running panicked: {}", name, m),
    }
}
