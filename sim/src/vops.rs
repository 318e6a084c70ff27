//! Catalogue of vector operations, generic over the length.
use crate::cx::*;
use crate::flt::Fl;
use crate::model::*;
use crate::rng::Rng;
use crate::viol;
use crate::world::*;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use std::cmp::Ordering;
use std::iter::FromIterator;

pub trait VN: ArrayLen<Tok> + ArrayLen<Vector<Tok, Self>> + ArrayLen<f64> + ArrayLen<crate::flt::Fl> + 'static where Self: Sized {
    const LEN: usize;
    fn vmax(v: &Vector<Tok, Self>) -> Option<Tok>;
    fn vmin(v: &Vector<Tok, Self>) -> Option<Tok>;
    fn vmax_by(v: &Vector<Tok, Self>, f: &mut dyn FnMut(&Tok, &Tok) -> Ordering) -> Option<Tok>;
    fn vmin_by(v: &Vector<Tok, Self>, f: &mut dyn FnMut(&Tok, &Tok) -> Ordering) -> Option<Tok>;
    fn fmax_by(v: &Vector<f64, Self>) -> Option<f64>;
    /// the k-th statically known index of this length (taken modulo how many there are)
    fn sidx(v: &Vector<Tok, Self>, k: usize) -> Option<(usize, &Tok)>;
    fn sidx_mut(v: &mut Vector<Tok, Self>, k: usize) -> Option<(usize, &mut Tok)>;
}

macro_rules! vn {
    ($($n:ident [$($s:ident)*];)*) => {$(
        impl VN for $n {
            const LEN: usize = <$n as rowcol::typenum::Unsigned>::USIZE;
            fn vmax(v: &Vector<Tok, Self>) -> Option<Tok> { Some(v.max()) }
            fn vmin(v: &Vector<Tok, Self>) -> Option<Tok> { Some(v.min()) }
            fn vmax_by(v: &Vector<Tok, Self>, f: &mut dyn FnMut(&Tok, &Tok) -> Ordering) -> Option<Tok> { Some(v.max_by(f)) }
            fn vmin_by(v: &Vector<Tok, Self>, f: &mut dyn FnMut(&Tok, &Tok) -> Ordering) -> Option<Tok> { Some(v.min_by(f)) }
            fn fmax_by(v: &Vector<f64, Self>) -> Option<f64> { Some(v.max_by(|a, b| a.partial_cmp(b).unwrap())) }
            fn sidx(v: &Vector<Tok, Self>, k: usize) -> Option<(usize, &Tok)> {
                let c = [$(<$s as rowcol::typenum::Unsigned>::USIZE),*];
                let want = c[k % c.len()];
                $(if want == <$s as rowcol::typenum::Unsigned>::USIZE { return Some((want, &v[$s::new()])); })*
                None
            }
            fn sidx_mut(v: &mut Vector<Tok, Self>, k: usize) -> Option<(usize, &mut Tok)> {
                let c = [$(<$s as rowcol::typenum::Unsigned>::USIZE),*];
                let want = c[k % c.len()];
                $(if want == <$s as rowcol::typenum::Unsigned>::USIZE { return Some((want, &mut v[$s::new()])); })*
                None
            }
        }
    )*};
}
vn! {
    U1 [U0]; U2 [U0 U1]; U3 [U0 U1 U2]; U4 [U0 U1 U2 U3]; U5 [U0 U2 U4]; U6 [U0 U3 U5]; U7 [U0 U1 U6]; U8 [U0 U4 U7];
    U9 [U0 U8]; U10 [U0 U5 U9]; U11 [U0 U10]; U12 [U2 U11]; U13 [U0 U12]; U14 [U7 U13]; U15 [U0 U14]; U16 [U0 U8 U15];
    U17 [U1 U16]; U18 [U0 U17]; U19 [U9 U18]; U20 [U0 U19]; U21 [U0 U20]; U22 [U11 U21]; U23 [U0 U22]; U24 [U0 U23];
    U25 [U0 U24]; U26 [U0 U25]; U27 [U0 U26]; U28 [U0 U27]; U29 [U0 U28]; U30 [U0 U29]; U31 [U0 U30]; U32 [U0 U15 U16 U31];
}
impl VN for U0 {
    const LEN: usize = 0;
    fn vmax(_: &Vector<Tok, Self>) -> Option<Tok> { None }
    fn vmin(_: &Vector<Tok, Self>) -> Option<Tok> { None }
    fn vmax_by(_: &Vector<Tok, Self>, _: &mut dyn FnMut(&Tok, &Tok) -> Ordering) -> Option<Tok> { None }
    fn vmin_by(_: &Vector<Tok, Self>, _: &mut dyn FnMut(&Tok, &Tok) -> Ordering) -> Option<Tok> { None }
    fn fmax_by(_: &Vector<f64, Self>) -> Option<f64> { None }
    fn sidx(_: &Vector<Tok, Self>, _: usize) -> Option<(usize, &Tok)> { None }
    fn sidx_mut(_: &mut Vector<Tok, Self>, _: usize) -> Option<(usize, &mut Tok)> { None }
}

#[macro_export]
macro_rules! with_len {
    ($n:expr, $t:ident => $e:expr) => {
        match $n {
            0 => { type $t = U0; $e } 1 => { type $t = U1; $e } 2 => { type $t = U2; $e } 3 => { type $t = U3; $e }
            4 => { type $t = U4; $e } 5 => { type $t = U5; $e } 6 => { type $t = U6; $e } 7 => { type $t = U7; $e }
            8 => { type $t = U8; $e } 9 => { type $t = U9; $e } 10 => { type $t = U10; $e } 11 => { type $t = U11; $e }
            12 => { type $t = U12; $e } 13 => { type $t = U13; $e } 14 => { type $t = U14; $e } 15 => { type $t = U15; $e }
            16 => { type $t = U16; $e } 17 => { type $t = U17; $e } 18 => { type $t = U18; $e } 19 => { type $t = U19; $e }
            20 => { type $t = U20; $e } 21 => { type $t = U21; $e } 22 => { type $t = U22; $e } 23 => { type $t = U23; $e }
            24 => { type $t = U24; $e } 25 => { type $t = U25; $e } 26 => { type $t = U26; $e } 27 => { type $t = U27; $e }
            28 => { type $t = U28; $e } 29 => { type $t = U29; $e } 30 => { type $t = U30; $e } 31 => { type $t = U31; $e }
            32 => { type $t = U32; $e }
            _ => panic!("bad length"),
        }
    };
}

pub fn mkv<N: ArrayLen<Tok>>(v: &[u64]) -> Vector<Tok, N> { Vector::generate(|i| Tok::new(v[i])) }
pub fn rdv<N: ArrayLen<Tok>>(v: &Vector<Tok, N>) -> Vec<u64> { v.as_slice().iter().map(|t| t.val()).collect() }
pub fn roots<N: ArrayLen<Tok>>(v: &Vector<Tok, N>) -> Vec<u32> { v.as_slice().iter().map(|t| t.root()).collect() }

pub struct VSt<N: VN> { pub x: Vector<Tok, N>, pub y: Vector<Tok, N>, pub xm: Vec<u64>, pub ym: Vec<u64> }

impl<N: VN> VSt<N> {
    pub fn new(a: i64, b: i64) -> Self {
        let (xm, ym) = (vals(a, N::LEN), vals(b, N::LEN));
        VSt { x: mkv(&xm), y: mkv(&ym), xm, ym }
    }
    pub fn intact(&self) {
        intact("x", rdv(&self.x), &self.xm);
        intact("y", rdv(&self.y), &self.ym);
    }
}

/// Checks the outcome of an operation that selects one of the elements.
pub fn want_sel(r: Res<Option<Tok>>, roots: &[u32], good: impl FnOnce(u64) -> bool) {
    match r {
        Res::Ok(Some(t)) => {
            let v = t.val();
            w().ev(v);
            if w().hostile != Hostile::No || true {
                if !roots.contains(&t.root()) { viol!("select", "{}: returned {} which is none of the given elements", w().opname, v); }
            }
            if !hostile() && !good(v) { viol!("value", "{}: selected {}", w().opname, v); }
        }
        Res::Ok(None) => {}
        Res::Panic(m) => viol!("panic", "{}: unexpected panic: {}", w().opname, m),
        _ => {}
    }
}

/// A comparator supplied by the caller; lawful (by a key) or random.
pub struct Cmp { pub rng: Rng, pub random: bool, pub ids: Vec<u32>, pub bad: bool }
impl Cmp {
    pub fn key(v: u64) -> u64 { (v.wrapping_mul(7) + 3) % 1009 }
    pub fn cmp(&mut self, a: &Tok, b: &Tok) -> Ordering {
        cb(Site::Closure);
        let _g = AllowAlloc::new();
        let (x, y) = (Cmp::key(a.val()), Cmp::key(b.val()));
        if !self.ids.contains(&a.id()) || !self.ids.contains(&b.id()) { self.bad = true; }
        if self.random {
            w().stat("fault.random_comparator");
            w().nontrivial += 1;
            return if w().hkind == Lie::Random { order(self.rng.below(3)) } else { order(answer(3, a.val(), b.val())) }.unwrap();
        }
        x.cmp(&y)
    }
}

pub const VOPS: &[&str] = &[
    "new_inner", "generate", "clone", "default", "zero", "min_value", "max_value", "eq", "is_zero",
    "add_vv", "add_vr", "add_rv", "add_rr", "sub_vv", "sub_vr", "sub_rv", "sub_rr",
    "mul", "mul_ref", "div", "div_ref", "neg", "dot", "sum", "max", "min", "max_by", "min_by", "clamped",
    "debug", "from_iter", "iter_part", "drop", "nested_clone", "assign", "pipeline", "norm", "vnorm", "normalized",
];

pub fn name_of(list: &[&'static str], op: &str) -> &'static str {
    list.iter().find(|n| **n == op).copied().unwrap_or("?")
}

pub fn vop<N: VN>(cx: &mut Cx, st: &VSt<N>, op: &str, args: &[i64]) {
    let n = N::LEN;
    let (xm, ym) = (&st.xm, &st.ym);
    let sc = scalar(args[0]);
    let a1 = args[1].unsigned_abs() as usize;
    w().opname = name_of(VOPS, op);
    macro_rules! bin {
        (vv $f:ident $g:ident) => { cx.each(|a| { let (l, r) = (mkv::<N>(xm), mkv::<N>(ym)); let q = a.run(move || std::ops::$f::$g(l, r)); want(q, |z| rdv(z), &zip(xm, ym, if stringify!($g) == "add" { fadd } else { fsub })); }) };
        (vr $f:ident $g:ident) => { cx.each(|a| { let l = mkv::<N>(xm); let q = a.run(move || std::ops::$f::$g(l, &st.y)); want(q, |z| rdv(z), &zip(xm, ym, if stringify!($g) == "add" { fadd } else { fsub })); st.intact(); }) };
        (rv $f:ident $g:ident) => { cx.each(|a| { let r = mkv::<N>(ym); let q = a.run(move || std::ops::$f::$g(&st.x, r)); want(q, |z| rdv(z), &zip(xm, ym, if stringify!($g) == "add" { fadd } else { fsub })); st.intact(); }) };
        (rr $f:ident $g:ident) => { cx.each(|a| { let q = a.run(|| std::ops::$f::$g(&st.x, &st.y)); want(q, |z| rdv(z), &zip(xm, ym, if stringify!($g) == "add" { fadd } else { fsub })); st.intact(); }) };
    }
    match op {
        "new_inner" => cx.each(|a| { let l = mkv::<N>(xm); let q = a.run(move || Vector::<Tok, N>::new(l.into_inner())); want(q, |z| rdv(z), xm); }),
        "generate" => cx.each(|a| {
            let g = Tok::new(0); // the caller's function owns something too
            let q = a.run(move || Vector::<Tok, N>::generate(move |i| { cb(Site::Closure); Tok::new(xm[i] + g.val()) }));
            want(q, |z| rdv(z), xm);
        }),
        "clone" => cx.each(|a| { let q = a.run(|| st.x.clone()); if let Res::Ok(z) = &q { if roots(z) != roots(&st.x) { viol!("select", "clone: holds something that is not a clone of its element"); } } want(q, |z| rdv(z), xm); st.intact(); }),
        "default" => cx.each(|a| { let q = a.run(|| Vector::<Tok, N>::default()); want(q, |z| rdv(z), &vec![0; n]); }),
        "zero" => cx.each(|a| { let q = a.run(|| <Vector<Tok, N> as num::Zero>::zero()); want(q, |z| rdv(z), &vec![0; n]); }),
        "min_value" => cx.each(|a| { let q = a.run(|| <Vector<Tok, N> as num::Bounded>::min_value()); want(q, |z| rdv(z), &vec![0; n]); }),
        "max_value" => cx.each(|a| { let q = a.run(|| <Vector<Tok, N> as num::Bounded>::max_value()); want(q, |z| rdv(z), &vec![P - 1; n]); }),
        "eq" => cx.each(|a| {
            // compare with an equal copy and with a copy differing at one place
            let same = mkv::<N>(xm);
            let mut om = xm.clone();
            if n > 0 { om[a1 % n] = fadd(om[a1 % n], 1); }
            let other = mkv::<N>(&om);
            let q = a.run(|| (st.x == same, st.x == other));
            want(q, |z| vec![z.0 as u64, z.1 as u64], &[1, (n == 0) as u64]);
            st.intact();
        }),
        "is_zero" => cx.each(|a| {
            let mut zm = vec![0; n];
            if n > 0 { zm[a1 % n] = args[0] as u64 % 2; }
            let z = mkv::<N>(&zm);
            let q = a.run(|| num::Zero::is_zero(&z));
            want(q, |b| vec![*b as u64], &[zm.iter().all(|&v| v == 0) as u64]);
        }),
        "add_vv" => bin!(vv Add add), "add_vr" => bin!(vr Add add), "add_rv" => bin!(rv Add add), "add_rr" => bin!(rr Add add),
        "sub_vv" => bin!(vv Sub sub), "sub_vr" => bin!(vr Sub sub), "sub_rv" => bin!(rv Sub sub), "sub_rr" => bin!(rr Sub sub),
        "mul" => cx.each(|a| { let l = mkv::<N>(xm); let s = Tok::new(sc); let q = a.run(move || l * s); want(q, |z| rdv(z), &mapv(xm, |v| fmul(v, sc))); }),
        "mul_ref" => cx.each(|a| { let l = mkv::<N>(xm); let s = Tok::new(sc); let q = a.run(|| l * &s); want(q, |z| rdv(z), &mapv(xm, |v| fmul(v, sc))); intact("scalar", vec![s.val()], &[sc]); }),
        "div" => cx.each(|a| { let l = mkv::<N>(xm); let s = Tok::new(sc); let q = a.run(move || l / s); want(q, |z| rdv(z), &mapv(xm, |v| fdiv(v, sc))); }),
        "div_ref" => cx.each(|a| { let l = mkv::<N>(xm); let s = Tok::new(sc); let q = a.run(|| l / &s); want(q, |z| rdv(z), &mapv(xm, |v| fdiv(v, sc))); intact("scalar", vec![s.val()], &[sc]); }),
        "neg" => cx.each(|a| { let l = mkv::<N>(xm); let q = a.run(move || -l); want(q, |z| rdv(z), &mapv(xm, fneg)); }),
        "dot" => cx.each(|a| { let q = a.run(|| st.x.dot(&st.y)); want(q, |z| vec![z.val()], &[dot(xm, ym)]); st.intact(); }),
        "sum" => cx.each(|a| { let q = a.run(|| st.x.sum()); want(q, |z| vec![z.val()], &[sum(xm)]); st.intact(); }),
        "max" => cx.each(|a| { let q = a.run(|| N::vmax(&st.x)); want_sel(q, &roots(&st.x), |v| v == *xm.iter().max().unwrap()); st.intact(); }),
        "min" => cx.each(|a| { let q = a.run(|| N::vmin(&st.x)); want_sel(q, &roots(&st.x), |v| v == *xm.iter().min().unwrap()); st.intact(); }),
        "max_by" | "min_by" => cx.each(|a| {
            let mut c = Cmp { rng: Rng::new(args[0] as u64), random: hostile(), ids: st.x.as_slice().iter().map(|t| t.id()).collect(), bad: false };
            let q = if op == "max_by" { a.run(|| N::vmax_by(&st.x, &mut |p, q| c.cmp(p, q))) } else { a.run(|| N::vmin_by(&st.x, &mut |p, q| c.cmp(p, q))) };
            if c.bad { viol!("select", "{}: comparator called on something that is not an element", op); }
            want_sel(q, &roots(&st.x), |v| { let ks = xm.iter().map(|&v| Cmp::key(v)); Cmp::key(v) == if op == "max_by" { ks.max().unwrap() } else { ks.min().unwrap() } });
            st.intact();
        }),
        "clamped" => cx.each(|a| {
            let (mut lo, mut hi) = (sc % 5, sc % 5 + a1 as u64 % 4);
            if hostile() && args[0] % 3 == 0 { std::mem::swap(&mut lo, &mut hi); }
            let (l, h) = (Tok::new(lo), Tok::new(hi));
            let mut allowed = vec![l.root(), h.root()];
            let q = a.run(|| st.x.clamped(l, h));
            if let Res::Ok(ref z) = q {
                for (i, t) in z.as_slice().iter().enumerate() {
                    allowed.push(st.x.as_slice()[i].root());
                    if !allowed.contains(&t.root()) { viol!("select", "clamped: position {} holds neither its element nor a bound", i); }
                    allowed.pop();
                }
            }
            want(q, |z| rdv(z), &clampv(xm, lo, hi));
            st.intact();
        }),
        "debug" => cx.each(|a| {
            let mut s = crate::fmtsim::Fixed::new();
            let q = a.run(|| std::fmt::Write::write_fmt(&mut s, format_args!("{:?}", st.x)).is_ok());
            let full = crate::fmtsim::dbg_vec(xm);
            if q.is_ok() && s.as_str() != full { viol!("value", "debug: rendered {:?} instead of {:?}", s.as_str(), full); }
            want(q, |z| vec![*z as u64], &[1]);
            st.intact();
        }),
        "from_iter" => cx.each(|a| {
            let q = a.run(|| Vector::<Tok, N>::from_iter(st.x.iter().map(|t| t.clone())));
            want(q, |z| rdv(z), xm);
            st.intact();
        }),
        "iter_part" => cx.each(|a| {
            // consume part of the vector from both ends, then abandon the iterator
            let l = mkv::<N>(xm);
            let (f, b) = (a1 % (n + 2), (args[0] as usize) % (n + 2));
            let q = a.run(move || {
                let mut it = l.into_iter();
                let mut s = 0;
                for _ in 0..f { if let Some(t) = it.next() { s = fadd(s, t.val()); } }
                for _ in 0..b { if let Some(t) = it.next_back() { s = fadd(s, t.val()); } }
                s
            });
            let f2 = f.min(n);
            let b2 = b.min(n - f2);
            let e = fadd(sum(&xm[..f2]), sum(&xm[n - b2..]));
            if b > 0 || f > 0 { w().stat("fault.iterator_abandoned"); w().nontrivial += 1; }
            want(q, |z| vec![*z], &[e]);
        }),
        "drop" => cx.each(|a| { let l = mkv::<N>(xm); let q = a.run(move || drop(l)); want(q, |_| vec![], &[]); }),
        "nested_clone" => cx.each(|a| {
            let nn: Vector<Vector<Tok, N>, U2> = Vector::new([mkv::<N>(xm), mkv::<N>(ym)]);
            let q = a.run(|| nn.clone());
            let mut e = xm.clone();
            e.extend(ym);
            want(q, |z| { let mut o = rdv(&z[0]); o.extend(rdv(&z[1])); o }, &e);
        }),
        "assign" => cx.each(|a| {
            let mut slot = mkv::<N>(xm);
            let l = mkv::<N>(ym);
            let q = a.run(|| { slot = l; });
            want(q, |_| rdv(&slot), ym);
        }),
        "pipeline" => cx.each(|a| {
            let l = mkv::<N>(xm);
            let s = Tok::new(sc);
            let q = a.run(move || {
                let v = (l + &st.y) * &s;
                let v: Vector<Tok, N> = v.into_iter().rev().collect();
                -v
            });
            let mut e = mapv(&zip(xm, ym, fadd), |v| fneg(fmul(v, sc)));
            e.reverse();
            want(q, |z| rdv(z), &e);
            st.intact();
        }),
        "norm" => cx.each(|a| {
            let v = Vector::<f64, N>::generate(|i| (xm[i] % 100) as f64);
            let q = a.run(|| N::fmax_by(&v));
            let em = xm.iter().map(|x| x % 100).max();
            if let Res::Ok(m) = &q { if m.map(|x| x as u64) != em { viol!("value", "max_by: {:?} instead of {:?}", m, em); } }
            want(q, |_| vec![], &[]);
        }),
        "vnorm" | "normalized" => cx.each(|a| {
            // tiny to huge, both signs
            let scale = [1.0, 0.001, 1000.0, -0.25, 1e-10, 1e40][args[0].unsigned_abs() as usize % 6];
            let f = |i: usize| { let _g = AllowAlloc::new(); ((xm[i] % 2001) as f64 - if args[1] % 3 == 0 { 0.0 } else { 1000.0 }) * scale };
            let v = Vector::<Fl, N>::generate(|i| Fl(f(i)));
            let e = (0..n).map(|i| f(i) * f(i)).sum::<f64>().sqrt();
            let near = |g: f64, e: f64| (g - e).abs() <= 1e-9 * e.abs() || g == e;
            if op == "vnorm" {
                let q = a.run(|| v.norm());
                if let Res::Ok(g) = &q { if !near(g.0, e) { viol!("value", "norm: {} instead of {}", g.0, e); } }
                want(q, |_| vec![], &[]);
            } else {
                let q = a.run(|| v.normalized());
                if let Res::Ok(g) = &q { if e != 0.0 { for i in 0..n { if !near(g[i].0, f(i) / e) { viol!("value", "normalized: element {} is {} instead of {}", i, g[i].0, f(i) / e); } } } }
                want(q, |_| vec![], &[]);
            }
            if (0..n).any(|i| v.as_slice()[i].0 != f(i)) { viol!("intact", "{}: borrowed operand changed", op); }
        }),
        _ => viol!("harness", "unknown vector op {}", op),
    }
    let _ = ym;
}

// ------------------------------------------------------------- in place

pub const VMUT: &[&str] = &[
    "add_assign", "sub_assign", "mul_assign", "div_assign", "clamp", "set", "set_static", "swap", "iter_mut", "as_mut", "deref_mut",
    "get_mut", "oob_read", "oob_write", "static0_empty", "replace", "clone_from",
];

fn torn_elem(op: &str, got: &[u64], old: &[u64], new: &[u64]) {
    for i in 0..old.len() {
        if got[i] != old[i] && got[i] != new[i] {
            viol!("torn", "{}: after a failure element {} is {}, neither old {} nor new {}", op, i, got[i], old[i], new[i]);
        }
    }
}

/// Reads a vector back by every access path and compares with the model.
pub fn check_reads<N: VN>(op: &str, v: &Vector<Tok, N>, m: &[u64]) {
    let a = rdv(v);
    if a != m { viol!("torn", "{}: contents {} instead of {}", op, short(&a), short(m)); return; }
    let n = N::LEN;
    let b: Vec<u64> = v.iter().map(|t| t.val()).collect();
    let c: Vec<u64> = (0..n).map(|i| Vector::index_(v, i)).collect();
    let d: Vec<u64> = (0..n).map(|i| unsafe { v.get_unchecked(i) }.val()).collect();
    let e: Vec<u64> = AsRef::<[Tok]>::as_ref(&**v).iter().map(|t| t.val()).collect();
    let f: Vec<u64> = AsRef::<[Tok]>::as_ref(v).iter().map(|t| t.val()).collect();
    for (p, g) in [("iter", b), ("index", c), ("get_unchecked", d), ("deref", e), ("as_ref", f)] {
        if g != m { viol!("torn", "{}: {} reads {} instead of {}", op, p, short(&g), short(m)); }
    }
    for k in 0..4 {
        if let Some((i, t)) = N::sidx(v, k) {
            if t.val() != m[i] { viol!("torn", "{}: static index {} reads {} instead of {}", op, i, t.val(), m[i]); }
        }
    }
    if v.len() != n || v.is_empty() != (n == 0) { viol!("torn", "{}: len/is_empty wrong", op); }
}

trait Ix { fn index_(&self, i: usize) -> u64; }
impl<N: VN> Ix for Vector<Tok, N> { fn index_(&self, i: usize) -> u64 { self[i].val() } }

pub fn vmut<N: VN>(cx: &mut Cx, x: &mut Vector<Tok, N>, xm: &mut Vec<u64>, op: &str, args: &[i64]) {
    let n = N::LEN;
    let sc = scalar(args[0]);
    let ym = vals(args[1], n);
    let i = if n > 0 { args[2].unsigned_abs() as usize % n } else { 0 };
    let j = if n > 0 { args[3].unsigned_abs() as usize % n } else { 0 };
    w().opname = name_of(VMUT, op);
    let old = xm.clone();
    let mut new = old.clone();
    let mut expect_panic = false;
    let (mut lo, mut hi) = (sc % 5, sc % 5 + (args[1].unsigned_abs() % 4));
    let crossed = op == "clamp" && args[3] % 6 == 0 && lo < hi && !hostile();
    if crossed { std::mem::swap(&mut lo, &mut hi); }
    match op {
        "clone_from" => new = ym.clone(),
        "add_assign" => new = zip(&old, &ym, fadd),
        "sub_assign" => new = zip(&old, &ym, fsub),
        "mul_assign" => new = mapv(&old, |v| fmul(v, sc)),
        "div_assign" => new = mapv(&old, |v| fdiv(v, sc)),
        "clamp" => new = clampv(&old, lo, hi),
        "swap" => if n > 0 { new.swap(i, j) },
        "set" | "iter_mut" | "as_mut" | "deref_mut" | "get_mut" => if n > 0 { new[i] = sc },
        "set_static" => if let Some((k, _)) = N::sidx(x, args[2].unsigned_abs() as usize) { new[k] = sc },
        "oob_read" | "oob_write" => expect_panic = true,
        "static0_empty" => expect_panic = n == 0,
        "replace" => new = ym.clone(),
        _ => { viol!("harness", "unknown op {}", op); return; }
    }
    let far = match args[2].unsigned_abs() % 4 { 0 => n, 1 => n + 1, 2 => usize::MAX, _ => n + args[3].unsigned_abs() as usize };
    // one closure serves the rehearsal copy and the real target
    fn act<N: VN>(a: &mut Att, x: &mut Vector<Tok, N>, op: &str, args: &[i64], sc: u64, ym: &[u64], lo: u64, hi: u64, i: usize, j: usize, far: usize, sel: &mut (u32, u32)) -> Res<()> {
        let n = N::LEN;
        match op {
            "add_assign" => { let y = mkv::<N>(ym); a.run(|| *x += y) }
            "sub_assign" => { let y = mkv::<N>(ym); a.run(|| *x -= y) }
            "mul_assign" => { let s = Tok::new(sc); a.run(|| *x *= s) }
            "div_assign" => { let s = Tok::new(sc); a.run(|| *x /= s) }
            "clamp" => { let (l, h) = (Tok::new(lo), Tok::new(hi)); *sel = (l.root(), h.root()); a.run(|| x.clamp(l, h)) }
            "swap" => a.run(|| if n > 0 { x.as_slice_mut().swap(i, j) }),
            "set" => { let s = Tok::new(sc); a.run(|| if n > 0 { x[i] = s }) }
            "iter_mut" => { let s = Tok::new(sc); a.run(|| if n > 0 { *x.iter_mut().nth(i).unwrap() = s }) }
            "as_mut" => { let s = Tok::new(sc); a.run(|| if n > 0 { AsMut::<[Tok]>::as_mut(x)[i] = s }) }
            "deref_mut" => { let s = Tok::new(sc); a.run(|| if n > 0 { AsMut::<[Tok]>::as_mut(&mut **x)[i] = s }) }
            "get_mut" => { let s = Tok::new(sc); a.run(|| if n > 0 { unsafe { *x.get_unchecked_mut(i) = s } }) }
            "set_static" => { let s = Tok::new(sc); a.run(|| if let Some((_, p)) = N::sidx_mut(x, args[2].unsigned_abs() as usize) { *p = s }) }
            "oob_read" => a.run(|| { let _ = x[far].val(); }),
            "oob_write" => { let s = Tok::new(sc); a.run(|| x[far] = s) }
            "static0_empty" => if n == 0 { a.run(|| { std::hint::black_box(&x[U0::new()]); }) } else { a.run(|| ()) },
            "replace" => { let y = mkv::<N>(ym); a.run(|| *x = y) }
            "clone_from" => { let y = mkv::<N>(ym); let q = a.run(|| x.clone_from(&y)); intact("source", rdv(&y), ym); q }
            _ => unreachable!(),
        }
    }
    let mut out = None;
    let mut fired = false;
    let mut sel = (0, 0);
    let before = roots(x);
    let r2 = old.clone();
    if crossed {
        // what clamping to bounds in the wrong order gives is for the code to say; doing it by halves is not
        let mut c = mkv::<N>(&old);
        let mut a = Att { fault: None, n: 0, d: 0, rehearsal: true, fired: false };
        if !act(&mut a, &mut c, op, args, sc, &ym, lo, hi, i, j, far, &mut (0, 0)).is_ok() { return; }
        new = rdv(&c);
    }
    cx.once(
        &mut |a| { let mut c = mkv::<N>(&r2); let _ = act(a, &mut c, op, args, sc, &ym, lo, hi, i, j, far, &mut (0, 0)); },
        &mut |a| { out = Some(act(a, x, op, args, sc, &ym, lo, hi, i, j, far, &mut sel)); fired = a.fired; },
    );
    let got = rdv(x);
    for &g in &got { w().ev(g); }
    match out.unwrap() {
        Res::Ok(()) => {
            if expect_panic { viol!("torn", "{}: index {} out of range was accepted", op, far); }
            *xm = if hostile() { got } else { new };
            check_reads(op, x, xm);
            if op == "clamp" {
                for (i, t) in roots(x).iter().enumerate() {
                    if *t != sel.0 && *t != sel.1 && *t != before[i] { viol!("select", "clamp: position {} holds neither its element nor a bound", i); }
                }
            }
        }
        Res::Injected => { if !hostile() { torn_elem(op, &got, &old, &new); } *xm = got; check_reads(op, x, xm); }
        Res::Panic(m) => {
            if !expect_panic { viol!("panic", "{}: unexpected panic {}", op, m); }
            if got != old { viol!("torn", "{}: contents changed by a rejected access", op); }
            w().stat("fault.bad_index_rejected");
        }
        Res::Budget => {}
    }
}
