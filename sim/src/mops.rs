//! Catalogue of matrix operations, generic over the dimensions.
use crate::cx::*;
use crate::model::*;
use crate::rng::Rng;
use crate::viol;
use crate::vops::{mkv, rdv, name_of, want_sel, Cmp};
use crate::world::*;
use approx::ApproxEq;
use num::Complex;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use std::cmp::Ordering;

pub type Arr<C> = <C as ArrayLen<Tok>>::Array;

/// Everything a dimension pair must support; holds for all of rowcol's lengths.
pub trait MN<C>: ArrayLen<Tok> + ArrayLen<u64> + ArrayLen<Complex<Tok>>
    + ArrayLen<Vector<Tok, C>> + ArrayLen<Vector<u64, C>> + ArrayLen<Vector<Complex<Tok>, C>> + ArrayLen<Arr<C>> + 'static
where C: ArrayLen<Tok> + ArrayLen<u64> + ArrayLen<Complex<Tok>> {}
impl<R, C> MN<C> for R
where
    C: ArrayLen<Tok> + ArrayLen<u64> + ArrayLen<Complex<Tok>>,
    R: ArrayLen<Tok> + ArrayLen<u64> + ArrayLen<Complex<Tok>>
        + ArrayLen<Vector<Tok, C>> + ArrayLen<Vector<u64, C>> + ArrayLen<Vector<Complex<Tok>, C>> + ArrayLen<Arr<C>> + 'static {}

pub fn mkm<R: MN<C>, C: MN<R>>(v: &[u64]) -> Matrix<Tok, R, C> { let c = C::to_usize(); Matrix::generate(|(i, j)| Tok::new(v[i * c + j])) }
pub fn rdm<R: MN<C>, C: MN<R>>(m: &Matrix<Tok, R, C>) -> Vec<u64> {
    let (r, c) = (R::to_usize(), C::to_usize());
    let mut o = Vec::with_capacity(r * c);
    for i in 0..r { for j in 0..c { o.push(m[(i, j)].val()); } }
    o
}
pub fn rootsm<R: MN<C>, C: MN<R>>(m: &Matrix<Tok, R, C>) -> Vec<u32> {
    let mut o = vec![];
    for i in 0..R::to_usize() { for j in 0..C::to_usize() { o.push(m[(i, j)].root()); } }
    o
}

pub struct MSt<R: MN<C>, C: MN<R>> { pub x: Matrix<Tok, R, C>, pub y: Matrix<Tok, R, C>, pub v: Vector<Tok, C>, pub xm: Vec<u64>, pub ym: Vec<u64>, pub vm: Vec<u64> }
impl<R: MN<C>, C: MN<R>> MSt<R, C> {
    pub fn new(a: i64, b: i64) -> Self {
        let (r, c) = (R::to_usize(), C::to_usize());
        let (xm, ym, vm) = (vals(a, r * c), vals(b, r * c), vals(a ^ 77, c));
        MSt { x: mkm(&xm), y: mkm(&ym), v: mkv(&vm), xm, ym, vm }
    }
    pub fn intact(&self) {
        intact("x", rdm(&self.x), &self.xm);
        intact("y", rdm(&self.y), &self.ym);
        intact("v", rdv(&self.v), &self.vm);
    }
}

pub const MOPS: &[&str] = &[
    "new", "generate", "clone", "default", "zero", "bounds", "eq", "is_zero", "approx",
    "add_vv", "add_vr", "add_rv", "add_rr", "sub_vv", "sub_vr", "sub_rv", "sub_rr", "neg",
    "mul", "mul_ref", "div", "div_ref", "mulvec", "mulvec_ref", "transposed", "map", "map_u64",
    "clamped", "sum", "debug", "drop", "conjugate", "all_any", "rows_part", "cols_part", "cols_ref_part", "pipeline",
];

pub fn mop<R: MN<C>, C: MN<R>>(cx: &mut Cx, st: &MSt<R, C>, op: &str, args: &[i64]) {
    let (r, c) = (R::to_usize(), C::to_usize());
    let n = r * c;
    let (xm, ym) = (&st.xm, &st.ym);
    let sc = scalar(args[0]);
    let a1 = args[1].unsigned_abs() as usize;
    w().opname = name_of(MOPS, op);
    macro_rules! bin {
        (vv $f:ident $g:ident) => { cx.each(|a| { let (l, r) = (mkm::<R, C>(xm), mkm::<R, C>(ym)); let q = a.run(move || std::ops::$f::$g(l, r)); want(q, |z| rdm(z), &zip(xm, ym, if stringify!($g) == "add" { fadd } else { fsub })); }) };
        (vr $f:ident $g:ident) => { cx.each(|a| { let l = mkm::<R, C>(xm); let q = a.run(move || std::ops::$f::$g(l, &st.y)); want(q, |z| rdm(z), &zip(xm, ym, if stringify!($g) == "add" { fadd } else { fsub })); st.intact(); }) };
        (rv $f:ident $g:ident) => { cx.each(|a| { let r = mkm::<R, C>(ym); let q = a.run(move || std::ops::$f::$g(&st.x, r)); want(q, |z| rdm(z), &zip(xm, ym, if stringify!($g) == "add" { fadd } else { fsub })); st.intact(); }) };
        (rr $f:ident $g:ident) => { cx.each(|a| { let q = a.run(|| std::ops::$f::$g(&st.x, &st.y)); want(q, |z| rdm(z), &zip(xm, ym, if stringify!($g) == "add" { fadd } else { fsub })); st.intact(); }) };
    }
    match op {
        "new" => cx.each(|a| {
            let rows: Vector<Arr<C>, R> = Vector::generate(|i| mkv::<C>(&xm[i * c..(i + 1) * c]).into_inner());
            let arr = rows.into_inner();
            let q = a.run(move || Matrix::<Tok, R, C>::new(arr));
            want(q, |z| rdm(z), xm);
        }),
        "generate" => cx.each(|a| {
            let g = Tok::new(0); // the caller's function owns something too
            let q = a.run(move || Matrix::<Tok, R, C>::generate(move |(i, j)| { cb(Site::Closure); Tok::new(xm[i * c + j] + g.val()) }));
            want(q, |z| rdm(z), xm);
        }),
        "clone" => cx.each(|a| { let q = a.run(|| st.x.clone()); if let Res::Ok(z) = &q { if rootsm(z) != rootsm(&st.x) { viol!("select", "clone: holds something that is not a clone of its element"); } } want(q, |z| rdm(z), xm); st.intact(); }),
        "default" => cx.each(|a| { let q = a.run(|| Matrix::<Tok, R, C>::default()); want(q, |z| rdm(z), &vec![0; n]); }),
        "zero" => cx.each(|a| { let q = a.run(|| <Matrix<Tok, R, C> as num::Zero>::zero()); want(q, |z| rdm(z), &vec![0; n]); }),
        "bounds" => cx.each(|a| {
            let q = a.run(|| if args[0] % 2 == 0 { <Matrix<Tok, R, C> as num::Bounded>::min_value() } else { <Matrix<Tok, R, C> as num::Bounded>::max_value() });
            want(q, |z| rdm(z), &vec![if args[0] % 2 == 0 { 0 } else { P - 1 }; n]);
        }),
        "eq" => cx.each(|a| {
            let same = mkm::<R, C>(xm);
            let mut om = xm.clone();
            if n > 0 { om[a1 % n] = fadd(om[a1 % n], 1); }
            let other = mkm::<R, C>(&om);
            let q = a.run(|| (st.x == same, st.x == other));
            want(q, |z| vec![z.0 as u64, z.1 as u64], &[1, (n == 0) as u64]);
            st.intact();
        }),
        "is_zero" => cx.each(|a| {
            let mut zm = vec![0; n];
            if n > 0 { zm[a1 % n] = args[0] as u64 % 2; }
            let z = mkm::<R, C>(&zm);
            let q = a.run(|| num::Zero::is_zero(&z));
            want(q, |b| vec![*b as u64], &[zm.iter().all(|&v| v == 0) as u64]);
        }),
        "approx" => cx.each(|a| {
            let mut om: Vec<u64> = xm.iter().map(|v| v % 1000).collect();
            let same = mkm::<R, C>(&om);
            let base = mkm::<R, C>(&om);
            if n > 0 { om[a1 % n] += 5; }
            let other = mkm::<R, C>(&om);
            let q = a.run(|| (base.relative_eq(&same, 0, 0), base.relative_eq(&other, 4, 4), base.ulps_eq(&same, 0, 0), base.ulps_eq(&other, 4, 4), base.relative_eq(&other, 5, 5)));
            want(q, |z| vec![z.0 as u64, z.1 as u64, z.2 as u64, z.3 as u64, z.4 as u64], &[1, (n == 0) as u64, 1, (n == 0) as u64, 1]);
        }),
        "add_vv" => bin!(vv Add add), "add_vr" => bin!(vr Add add), "add_rv" => bin!(rv Add add), "add_rr" => bin!(rr Add add),
        "sub_vv" => bin!(vv Sub sub), "sub_vr" => bin!(vr Sub sub), "sub_rv" => bin!(rv Sub sub), "sub_rr" => bin!(rr Sub sub),
        "neg" => cx.each(|a| { let l = mkm::<R, C>(xm); let q = a.run(move || -l); want(q, |z| rdm(z), &mapv(xm, fneg)); }),
        "mul" => cx.each(|a| { let l = mkm::<R, C>(xm); let s = Tok::new(sc); let q = a.run(move || l * s); want(q, |z| rdm(z), &mapv(xm, |v| fmul(v, sc))); }),
        "mul_ref" => cx.each(|a| { let l = mkm::<R, C>(xm); let s = Tok::new(sc); let q = a.run(|| l * &s); want(q, |z| rdm(z), &mapv(xm, |v| fmul(v, sc))); intact("scalar", vec![s.val()], &[sc]); }),
        "div" => cx.each(|a| { let l = mkm::<R, C>(xm); let s = Tok::new(sc); let q = a.run(move || l / s); want(q, |z| rdm(z), &mapv(xm, |v| fdiv(v, sc))); }),
        "div_ref" => cx.each(|a| { let l = mkm::<R, C>(xm); let s = Tok::new(sc); let q = a.run(|| l / &s); want(q, |z| rdm(z), &mapv(xm, |v| fdiv(v, sc))); intact("scalar", vec![s.val()], &[sc]); }),
        "mulvec" => cx.each(|a| { let l = mkm::<R, C>(xm); let v = mkv::<C>(&st.vm); let q = a.run(move || l * v); want(q, |z| rdv(z), &matmul(xm, &st.vm, r, c, 1)); }),
        "mulvec_ref" => cx.each(|a| { let l = mkm::<R, C>(xm); let q = a.run(|| l * &st.v); want(q, |z| rdv(z), &matmul(xm, &st.vm, r, c, 1)); st.intact(); }),
        "transposed" => cx.each(|a| { let q = a.run(|| st.x.transposed()); if let Res::Ok(z) = &q { let (b, t) = (rootsm(&st.x), rootsm(z)); if (0..n).any(|k| t[k] != b[k % r * c + k / r]) { viol!("select", "transposed: holds something that is not its element"); } } want(q, |z| rdm(z), &transpose(xm, r, c)); st.intact(); }),
        "map" => cx.each(|a| {
            let l = mkm::<R, C>(xm);
            let g = Tok::new(0);
            let q = a.run(move || l.map(move |(i, j), t| { cb(Site::Closure); t + Tok::new((i * c + j) as u64 + g.val()) }));
            let e: Vec<u64> = xm.iter().enumerate().map(|(k, &v)| fadd(v, k as u64)).collect();
            want(q, |z| rdm(z), &e);
        }),
        "map_u64" => cx.each(|a| {
            let l = mkm::<R, C>(xm);
            let q = a.run(move || l.map(|_, t| { cb(Site::Closure); t.val() }));
            want(q, |z| { let mut o = vec![]; for i in 0..r { for j in 0..c { o.push(z[(i, j)]); } } o }, xm);
        }),
        "clamped" => cx.each(|a| {
            let (mut lo, mut hi) = (sc % 5, sc % 5 + a1 as u64 % 4);
            if hostile() && args[0] % 3 == 0 { std::mem::swap(&mut lo, &mut hi); }
            let (l, h) = (Tok::new(lo), Tok::new(hi));
            let (rl, rh) = (l.root(), h.root());
            let q = a.run(|| st.x.clamped(l, h));
            if let Res::Ok(ref z) = q {
                for i in 0..r { for j in 0..c {
                    let t = z[(i, j)].root();
                    if t != rl && t != rh && t != st.x[(i, j)].root() { viol!("select", "clamped: position ({},{}) holds neither its element nor a bound", i, j); }
                } }
            }
            want(q, |z| rdm(z), &clampv(xm, lo, hi));
            st.intact();
        }),
        "sum" => cx.each(|a| { let q = a.run(|| st.x.sum()); want(q, |z| vec![z.val()], &[sum(xm)]); st.intact(); }),
        "debug" => cx.each(|a| {
            let mut s = crate::fmtsim::Fixed::new();
            let q = a.run(|| std::fmt::Write::write_fmt(&mut s, format_args!("{:?}", st.x)).is_ok());
            let full = crate::fmtsim::dbg_mat(xm, r, c);
            if q.is_ok() && s.as_str() != full { viol!("value", "debug: rendered {:?} instead of {:?}", s.as_str(), full); }
            want(q, |z| vec![*z as u64], &[1]);
            st.intact();
        }),
        "drop" => cx.each(|a| { let l = mkm::<R, C>(xm); let q = a.run(move || drop(l)); want(q, |_| vec![], &[]); }),
        "conjugate" => cx.each(|a| {
            let l: Matrix<Complex<Tok>, R, C> = Matrix::generate(|(i, j)| Complex { re: Tok::new(xm[i * c + j]), im: Tok::new(ym[i * c + j]) });
            let q = a.run(|| l.conjugate());
            let e: Vec<u64> = (0..n).flat_map(|k| vec![xm[k], fneg(ym[k])]).collect();
            want(q, |z| { let mut o = vec![]; for i in 0..r { for j in 0..c { o.push(z[(i, j)].re.val()); o.push(z[(i, j)].im.val()); } } o }, &e);
            let mut keep = vec![];
            for i in 0..r { for j in 0..c { keep.push(l[(i, j)].re.val()); keep.push(l[(i, j)].im.val()); } }
            let e: Vec<u64> = (0..n).flat_map(|k| vec![xm[k], ym[k]]).collect();
            intact("self", keep, &e);
        }),
        "all_any" => cx.each(|a| {
            let t = a1 % (n + 1);
            let (g, h) = (Tok::new(0), Tok::new(0));
            let x = &st.x;
            let q = a.run(move || (x.all(move |(i, j), v| { cb(Site::Closure); v.val(); i * c + j + g.val() as usize != t }), x.any(move |(i, j), v| { cb(Site::Closure); v.val(); i * c + j == t + h.val() as usize })));
            want(q, |z| vec![z.0 as u64, z.1 as u64], &[(t == n) as u64, (t < n) as u64]);
            st.intact();
        }),
        "rows_part" | "cols_part" => cx.each(|a| {
            // take some rows (columns) from both ends, then abandon the iterator
            let lines = if op == "rows_part" { r } else { c };
            let (f, b) = (a1 % (lines + 2), (args[0] as usize) % (lines + 2));
            let rows = op == "rows_part";
            let q = a.run(|| {
                let mut s = 0;
                if rows {
                    let mut it = st.x.rows_iter();
                    for _ in 0..f { if let Some(v) = it.next() { for t in v.iter() { s = fadd(s, t.val()); } } }
                    for _ in 0..b { if let Some(v) = it.next_back() { for t in v.iter() { s = fadd(s, t.val()); } } }
                } else {
                    let mut it = st.x.cols_iter();
                    for _ in 0..f { if let Some(v) = it.next() { for t in v.iter() { s = fadd(s, t.val()); } } }
                    for _ in 0..b { if let Some(v) = it.next_back() { for t in v.iter() { s = fadd(s, t.val()); } } }
                }
                s
            });
            let f2 = f.min(lines);
            let b2 = b.min(lines - f2);
            let mut e = 0;
            for l in (0..f2).chain(lines - b2..lines) {
                e = fadd(e, if rows { sum(&xm[l * c..(l + 1) * c]) } else { (0..r).fold(0, |s, i| fadd(s, xm[i * c + l])) });
            }
            want(q, |z| vec![*z], &[e]);
            st.intact();
        }),
        "cols_ref_part" => cx.each(|a| {
            let q = a.run(|| {
                let mut s = 0;
                for (k, col) in st.x.cols_iter_ref().enumerate() { for (i, t) in col.enumerate() { cb(Site::Closure); s = fadd(s, fmul(t.val(), (k * 31 + i + 1) as u64)); } }
                for (k, row) in st.x.rows_iter_ref().rev().enumerate() { for t in row { cb(Site::Closure); s = fadd(s, fmul(t.val(), k as u64)); } }
                s
            });
            let mut e = 0;
            for j in 0..c { for i in 0..r { e = fadd(e, fmul(xm[i * c + j], (j * 31 + i + 1) as u64)); } }
            for i in 0..r { for j in 0..c { e = fadd(e, fmul(xm[i * c + j], (r - 1 - i) as u64)); } }
            want(q, |z| vec![*z], &[e]);
            st.intact();
        }),
        "pipeline" => cx.each(|a| {
            let l = mkm::<R, C>(xm);
            let s = Tok::new(sc);
            let q = a.run(|| { let v = (l - &st.y) * &s; let t = (-v).transposed(); t + st.x.transposed() });
            let e = transpose(&zip(&mapv(&zip(xm, ym, fsub), |v| fneg(fmul(v, sc))), xm, fadd), r, c);
            want(q, |z| rdm(z), &e);
            st.intact();
        }),
        _ => viol!("harness", "unknown matrix op {}", op),
    }
}

// -------------------------------------------------------------- products

pub const MULS: &[&str] = &["mm_vv", "mm_vr", "mm_rv", "mm_rr"];

pub fn mm<L, N, R>(cx: &mut Cx, op: &str, args: &[i64])
where L: MN<N> + MN<R>, N: MN<L> + MN<R>, R: MN<L> + MN<N> {
    let (l, n, r) = (<L as rowcol::typenum::Unsigned>::to_usize(), <N as rowcol::typenum::Unsigned>::to_usize(), <R as rowcol::typenum::Unsigned>::to_usize());
    let (am, bm) = (vals(args[0], l * n), vals(args[1], n * r));
    let x = mkm::<L, N>(&am);
    let y = mkm::<N, R>(&bm);
    let e = matmul(&am, &bm, l, n, r);
    w().opname = name_of(MULS, op);
    cx.each(|a| {
        let q = match op {
            "mm_vv" => { let (p, q) = (mkm::<L, N>(&am), mkm::<N, R>(&bm)); a.run(move || p * q) }
            "mm_vr" => { let p = mkm::<L, N>(&am); a.run(|| p * &y) }
            "mm_rv" => { let q = mkm::<N, R>(&bm); a.run(|| &x * q) }
            _ => a.run(|| &x * &y),
        };
        want(q, |z| rdm(z), &e);
        intact("left", rdm(&x), &am);
        intact("right", rdm(&y), &bm);
    });
}

macro_rules! triples {
    ($($i:expr => $l:ident $n:ident $r:ident;)*) => {
        pub const TRIPLES: usize = [$($i),*].len();
        pub fn mm_dispatch(k: i64, cx: &mut Cx, op: &str, args: &[i64]) {
            match k { $($i => mm::<$l, $n, $r>(cx, op, args),)* _ => viol!("harness", "bad triple") }
        }
    };
}
triples! {
    0 => U1 U1 U1; 1 => U2 U2 U2; 2 => U3 U3 U3; 3 => U4 U4 U4; 4 => U2 U3 U4; 5 => U3 U2 U2; 6 => U1 U4 U3; 7 => U4 U1 U2;
    8 => U3 U3 U1; 9 => U0 U2 U3; 10 => U2 U0 U3; 11 => U3 U2 U0; 12 => U5 U5 U5; 13 => U6 U2 U7; 14 => U8 U8 U8; 15 => U1 U16 U2;
    16 => U16 U3 U1; 17 => U2 U1 U17; 18 => U1 U32 U1; 19 => U9 U4 U3; 20 => U2 U5 U2; 21 => U4 U3 U2; 22 => U0 U0 U0; 23 => U10 U3 U3;
    24 => U1 U3 U1; 25 => U3 U1 U3; 26 => U7 U7 U7; 27 => U2 U4 U8; 28 => U8 U4 U2; 29 => U5 U6 U4; 30 => U12 U2 U12; 31 => U2 U32 U3; 32 => U1 U0 U1; 33 => U6 U6 U6;
    34 => U11 U13 U2; 35 => U14 U3 U15; 36 => U2 U18 U10; 37 => U20 U2 U24; 38 => U3 U25 U4; 39 => U28 U1 U27; 40 => U31 U2 U31; 41 => U1 U31 U1; 42 => U22 U23 U1; 43 => U5 U26 U3; 44 => U19 U3 U30; 45 => U2 U21 U29;
}

// ---------------------------------------------------------- square matrices

pub trait SQ: MN<Self> where Self: Sized {
    fn det(_: &Matrix<Tok, Self, Self>) -> Option<Tok> { None }
    fn cof(_: &Matrix<Tok, Self, Self>, _: (usize, usize)) -> Option<Tok> { None }
    fn inv(_: &Matrix<Tok, Self, Self>) -> Option<Option<Matrix<Tok, Self, Self>>> { None }
    fn mmax(_: &Matrix<Tok, Self, Self>) -> Option<Tok> { None }
    fn mmin(_: &Matrix<Tok, Self, Self>) -> Option<Tok> { None }
    fn mmax_by(_: &Matrix<Tok, Self, Self>, _: &mut dyn FnMut(&Tok, &Tok) -> Ordering) -> Option<Tok> { None }
    fn mmin_by(_: &Matrix<Tok, Self, Self>, _: &mut dyn FnMut(&Tok, &Tok) -> Ordering) -> Option<Tok> { None }
    fn cross(_: &Matrix<Tok, Self, Self>) -> Option<Vector<Tok, U3>> { None }
}
macro_rules! sq {
    (@det) => { fn det(m: &Matrix<Tok, Self, Self>) -> Option<Tok> { Some(m.determinant()) } };
    (@cof) => { fn cof(m: &Matrix<Tok, Self, Self>, i: (usize, usize)) -> Option<Tok> { Some(m.cofactor(i)) } };
    (@inv) => { fn inv(m: &Matrix<Tok, Self, Self>) -> Option<Option<Matrix<Tok, Self, Self>>> { Some(m.inverse()) } };
    (@max) => {
        fn mmax(m: &Matrix<Tok, Self, Self>) -> Option<Tok> { Some(m.max()) }
        fn mmin(m: &Matrix<Tok, Self, Self>) -> Option<Tok> { Some(m.min()) }
        fn mmax_by(m: &Matrix<Tok, Self, Self>, f: &mut dyn FnMut(&Tok, &Tok) -> Ordering) -> Option<Tok> { Some(m.max_by(f)) }
        fn mmin_by(m: &Matrix<Tok, Self, Self>, f: &mut dyn FnMut(&Tok, &Tok) -> Ordering) -> Option<Tok> { Some(m.min_by(f)) }
    };
    (@cross) => { fn cross(m: &Matrix<Tok, Self, Self>) -> Option<Vector<Tok, U3>> {
        let a = m.rows_iter_ref().next().unwrap();
        let b = m.rows_iter_ref().next_back().unwrap();
        let _g = AllowAlloc::new();
        let a: Vector<Tok, U3> = Vector::new([a[0].clone(), a[1].clone(), a[2].clone()]);
        let b: Vector<Tok, U3> = Vector::new([b[0].clone(), b[1].clone(), b[2].clone()]);
        drop(_g);
        Some(a.cross(&b))
    } };
    ($($n:ident [$($k:ident)*];)*) => { $(impl SQ for $n { $(sq!(@$k);)* })* };
}
sq! {
    U0 []; U1 [det inv max]; U2 [det cof inv max]; U3 [det cof inv max cross]; U4 [det cof inv max]; U5 [det cof inv max];
    U6 [det cof inv max]; U7 [det cof inv max]; U8 [det cof inv max]; U9 [det cof inv max]; U10 [det cof inv max];
    U11 [det cof inv max]; U12 [det cof inv max]; U13 [det cof inv max]; U16 [det cof inv max]; U19 [inv max]; U27 [inv max]; U32 [inv max];
}
pub const SQN: &[i64] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 19, 27, 32];
#[macro_export]
macro_rules! with_sq {
    ($n:expr, $t:ident => $e:expr) => {
        match $n {
            0 => { type $t = U0; $e } 1 => { type $t = U1; $e } 2 => { type $t = U2; $e } 3 => { type $t = U3; $e }
            4 => { type $t = U4; $e } 5 => { type $t = U5; $e } 6 => { type $t = U6; $e } 7 => { type $t = U7; $e }
            8 => { type $t = U8; $e } 9 => { type $t = U9; $e } 10 => { type $t = U10; $e }
            11 => { type $t = U11; $e } 12 => { type $t = U12; $e } 13 => { type $t = U13; $e } 16 => { type $t = U16; $e } 19 => { type $t = U19; $e } 27 => { type $t = U27; $e }
            32 => { type $t = U32; $e }
            _ => panic!("bad square"),
        }
    };
}

pub const SQOPS: &[&str] = &["identity", "one", "pow", "det", "cof", "inv", "max", "min", "max_by", "min_by", "cross"];

/// A product of sparse triangular matrices; singular in its last step now and then.
fn sparse(seed: u64, n: usize) -> Vec<u64> {
    let mut r = Rng::new(seed);
    let k = 1 + r.below(3);
    let mut tri = |unit: bool| -> Vec<u64> {
        (0..n * n).map(|x| {
            let (i, j) = (x / n, x % n);
            canon(if i == j { if unit { 1 } else { 1 + r.below(9) } } else if (i > j) == unit && r.chance(1, 1 + k) { 1 + r.below(P - 1) } else { 0 })
        }).collect()
    };
    let (l, mut u) = (tri(true), tri(false));
    if seed % 5 == 0 { u[n * n - 1] = 0; }
    matmul(&l, &u, n, n, n)
}

pub fn sqop<N: SQ>(cx: &mut Cx, op: &str, args: &[i64]) {
    let n = N::to_usize();
    let mut xm = vals(args[0], n * n);
    if n >= 6 && (op == "det" || op == "cof") && !(n == 6 && args[0] % 7 == 0) { xm = vals(args[0] / 6 * 6 + 2, n * n); }
    if n >= 2 && args.len() > 2 && args[2] % 5 == 0 && n < 6 {
        // a singular matrix: one row is a multiple of another
        let (s, d) = (args[1].unsigned_abs() as usize % n, (args[1].unsigned_abs() as usize + 1) % n);
        for k in 0..n { xm[d * n + k] = fmul(xm[s * n + k], 3); }
    }
    if n >= 2 && args.len() > 2 && (args[2] % 5 == 1) && (n < 6 || op == "inv") {
        // zeros on the diagonal: elimination must not depend on the pivots being non-zero
        for k in 0..n { if (args[1].unsigned_abs() as usize >> k) & 1 == 0 { xm[k * n + k] = 0; } }
    }
    // many zeros, yet every elimination step finds its pivot
    let lu = n >= 6 && args.len() > 2 && args[2] % 5 >= 3 && (op == "det" || op == "cof" || op == "inv");
    if lu { xm = sparse(args[0] as u64, n); }
    let x = mkm::<N, N>(&xm);
    let a1 = args[1].unsigned_abs() as usize;
    w().opname = name_of(SQOPS, op);
    match op {
        "identity" => cx.each(|a| { let q = a.run(|| Matrix::<Tok, N, N>::identity()); want(q, |z| rdm(z), &ident(n)); }),
        "one" => cx.each(|a| { let q = a.run(|| <Matrix<Tok, N, N> as num::One>::one()); want(q, |z| rdm(z), &ident(n)); }),
        "pow" => cx.each(|a| { let e = if n > 16 { a1 % 2 } else if n > 8 { a1 % 3 } else if n > 4 || args[0] % 3 != 0 { a1 % 8 } else { match a1 % 5 { 0 => a1 / 5 % 70, 1 => 1 << (a1 / 5 % 64), 2 => (1 << (a1 / 5 % 64)) - 1, 3 => usize::MAX, _ => a1 } }; let q = a.run(|| x.pow(e)); want(q, |z| rdm(z), &matpow(&xm, n, e)); intact("self", rdm(&x), &xm); }),
        "det" => cx.each(|a| { let q = a.run(|| N::det(&x)); let e = if n == 0 || n > 16 { vec![] } else { vec![det(&xm, n)] }; want(q, |z| z.iter().map(|t| t.val()).collect(), &e); intact("self", rdm(&x), &xm); }),
        "cof" => cx.each(|a| {
            if n < 2 || n > 16 { return; }
            let (i, j) = if lu && n > 8 { (n - 1, n - 1) } else { (a1 % n, a1 / n % n) };
            let q = a.run(|| N::cof(&x, (i, j)));
            want(q, |z| z.iter().map(|t| t.val()).collect(), &[cofactor(&xm, n, i, j)]);
            intact("self", rdm(&x), &xm);
        }),
        "inv" => cx.each(|a| {
            let q = a.run(|| N::inv(&x));
            let e = if n == 0 { vec![] } else { match inverse(&xm, n) { None => vec![u64::MAX], Some(v) => v } };
            want(q, |z| match z { None => vec![], Some(None) => vec![u64::MAX], Some(Some(m)) => rdm(m) }, &e);
            intact("self", rdm(&x), &xm);
        }),
        "max" => cx.each(|a| { let q = a.run(|| N::mmax(&x)); want_sel(q, &rootsm(&x), |v| v == *xm.iter().max().unwrap()); intact("self", rdm(&x), &xm); }),
        "min" => cx.each(|a| { let q = a.run(|| N::mmin(&x)); want_sel(q, &rootsm(&x), |v| v == *xm.iter().min().unwrap()); intact("self", rdm(&x), &xm); }),
        "max_by" | "min_by" => cx.each(|a| {
            let mut ids = vec![];
            for i in 0..n { for j in 0..n { ids.push(x[(i, j)].id()); } }
            let mut c = Cmp { rng: Rng::new(args[0] as u64), random: hostile(), ids, bad: false };
            let q = if op == "max_by" { a.run(|| N::mmax_by(&x, &mut |p, q| c.cmp(p, q))) } else { a.run(|| N::mmin_by(&x, &mut |p, q| c.cmp(p, q))) };
            if c.bad { viol!("select", "{}: comparator called on something that is not an element", op); }
            want_sel(q, &rootsm(&x), |v| { let ks = xm.iter().map(|&v| Cmp::key(v)); Cmp::key(v) == if op == "max_by" { ks.max().unwrap() } else { ks.min().unwrap() } });
            intact("self", rdm(&x), &xm);
        }),
        "cross" => cx.each(|a| {
            let q = a.run(|| N::cross(&x));
            let e = if n == 3 {
                let (u, v) = (&xm[0..3], &xm[6..9]);
                (0..3).map(|i| fsub(fmul(u[(i + 1) % 3], v[(i + 2) % 3]), fmul(u[(i + 2) % 3], v[(i + 1) % 3]))).collect()
            } else { vec![] };
            want(q, |z| z.iter().flat_map(|v| rdv(v)).collect(), &e);
            intact("self", rdm(&x), &xm);
        }),
        _ => viol!("harness", "unknown square op {}", op),
    }
}

// ------------------------------------------------------------- conversions

pub const CONVOPS: &[&str] = &["from_vec", "diag"];
macro_rules! convs {
    ($($i:expr => $r:ident $c:ident $p:ident $m:ident;)*) => {
        pub const CONVS: usize = [$($i),*].len();
        pub fn conv_dispatch(k: i64, cx: &mut Cx, op: &str, args: &[i64]) {
            match k { $($i => {
                let (r, c, m) = (<$r as rowcol::typenum::Unsigned>::USIZE, <$c as rowcol::typenum::Unsigned>::USIZE, <$m as rowcol::typenum::Unsigned>::USIZE);
                let xm = vals(args[0], r * c);
                w().opname = name_of(CONVOPS, op);
                if op == "from_vec" {
                    cx.each(|a| { let v = mkv::<$p>(&xm); let q = a.run(move || Matrix::<Tok, $r, $c>::from(v)); want(q, |z| rdm(z), &xm); });
                } else {
                    let mut e = vec![0; r * c];
                    for i in 0..m { e[i * c + i] = xm[i]; }
                    cx.each(|a| { let v = mkv::<$m>(&xm[..m]).into_inner(); let q = a.run(move || Matrix::<Tok, $r, $c>::diag(v)); want(q, |z| rdm(z), &e); });
                }
            })* _ => diag_dispatch(k - CONVS as i64, cx, args) }
        }
    };
}
macro_rules! diags {
    ($($i:expr => $r:ident $c:ident $m:ident;)*) => {
        /// shapes with no vector of as many elements
        pub const DIAGS: usize = [$($i),*].len();
        fn diag_dispatch(k: i64, cx: &mut Cx, args: &[i64]) {
            match k { $($i => {
                let (r, c, m) = (<$r as rowcol::typenum::Unsigned>::USIZE, <$c as rowcol::typenum::Unsigned>::USIZE, <$m as rowcol::typenum::Unsigned>::USIZE);
                let xm = vals(args[0], m);
                w().opname = "diag";
                let mut e = vec![0; r * c];
                for i in 0..m { e[i * c + i] = xm[i]; }
                cx.each(|a| { let v = mkv::<$m>(&xm).into_inner(); let q = a.run(move || Matrix::<Tok, $r, $c>::diag(v)); want(q, |z| rdm(z), &e); });
            })* _ => viol!("harness", "bad conversion") }
        }
    };
}
diags! {
    0 => U10 U10 U10; 1 => U16 U16 U16; 2 => U32 U32 U32; 3 => U12 U11 U11; 4 => U11 U12 U11; 5 => U32 U8 U8; 6 => U7 U20 U7; 7 => U0 U0 U0; 8 => U8 U8 U8; 9 => U6 U6 U6;
}
convs! {
    0 => U1 U1 U1 U1; 1 => U2 U2 U4 U2; 2 => U2 U3 U6 U2; 3 => U3 U2 U6 U2; 4 => U3 U3 U9 U3; 5 => U4 U4 U16 U4;
    6 => U1 U5 U5 U1; 7 => U5 U1 U5 U1; 8 => U8 U4 U32 U4; 9 => U4 U8 U32 U4; 10 => U0 U3 U0 U0; 11 => U2 U7 U14 U2;
    12 => U32 U1 U32 U1; 13 => U1 U32 U32 U1; 14 => U3 U4 U12 U3; 15 => U2 U16 U32 U2; 16 => U5 U5 U25 U5;
    17 => U4 U2 U8 U2; 18 => U2 U4 U8 U2; 19 => U6 U3 U18 U3; 20 => U3 U6 U18 U3; 21 => U4 U3 U12 U3; 22 => U3 U1 U3 U1; 23 => U1 U2 U2 U1; 24 => U5 U6 U30 U5; 25 => U7 U3 U21 U3; 26 => U16 U2 U32 U2;
    27 => U2 U5 U10 U2; 28 => U5 U2 U10 U2; 29 => U3 U5 U15 U3; 30 => U5 U3 U15 U3; 31 => U2 U8 U16 U2; 32 => U8 U2 U16 U2; 33 => U2 U9 U18 U2; 34 => U9 U2 U18 U2;
    35 => U7 U1 U7 U1; 36 => U1 U7 U7 U1; 37 => U3 U8 U24 U3; 38 => U8 U3 U24 U3; 39 => U9 U3 U27 U3; 40 => U3 U10 U30 U3; 41 => U10 U3 U30 U3; 42 => U2 U10 U20 U2;
    43 => U11 U2 U22 U2; 44 => U2 U12 U24 U2; 45 => U13 U2 U26 U2; 46 => U2 U15 U30 U2; 47 => U4 U5 U20 U4; 48 => U5 U4 U20 U4; 49 => U4 U6 U24 U4; 50 => U6 U4 U24 U4;
    51 => U4 U7 U28 U4; 52 => U7 U4 U28 U4; 53 => U6 U5 U30 U5; 54 => U1 U19 U19 U1; 55 => U23 U1 U23 U1; 56 => U1 U29 U29 U1; 57 => U31 U1 U31 U1;
}

// ---------------------------------------------------------------- in place

pub const MMUT: &[&str] = &["add_assign", "sub_assign", "mul_assign", "div_assign", "clamp", "set", "set_static", "get_mut", "oob_read", "oob_write", "replace", "clone_from"];
pub const SQMUT: &[&str] = &["transpose", "mul_assign_mat", "cof_oob"];

fn torn_elem(op: &str, got: &[u64], old: &[u64], new: &[u64]) {
    for i in 0..old.len() {
        if got[i] != old[i] && got[i] != new[i] {
            viol!("torn", "{}: after a failure element {} is {}, neither old {} nor new {}", op, i, got[i], old[i], new[i]);
        }
    }
}
fn torn_whole(op: &str, got: &[u64], old: &[u64], new: &[u64]) {
    if got != old && got != new {
        viol!("torn", "{}: after a failure the matrix is {}, neither old {} nor new {}", op, short(got), short(old), short(new));
    }
}

pub trait StaticIdx: Sized {
    fn get(&self, _k: usize) -> Option<((usize, usize), &Tok)> { None }
    fn get_mut(&mut self, _k: usize) -> Option<((usize, usize), &mut Tok)> { None }
}
macro_rules! sidx {
    ($($r:ident $c:ident [$($k:expr => $i:ident $j:ident),*];)*) => {$(
        impl StaticIdx for Matrix<Tok, $r, $c> {
            fn get(&self, k: usize) -> Option<((usize, usize), &Tok)> {
                match k % 8 { $($k => Some(((<$i as rowcol::typenum::Unsigned>::USIZE, <$j as rowcol::typenum::Unsigned>::USIZE), &self[($i::new(), $j::new())])),)* _ => None }
            }
            fn get_mut(&mut self, k: usize) -> Option<((usize, usize), &mut Tok)> {
                match k % 8 { $($k => Some(((<$i as rowcol::typenum::Unsigned>::USIZE, <$j as rowcol::typenum::Unsigned>::USIZE), &mut self[($i::new(), $j::new())])),)* _ => None }
            }
        }
    )*};
}
sidx! {
    U1 U1 [0 => U0 U0]; U2 U2 [0 => U0 U0, 1 => U0 U1, 2 => U1 U0, 3 => U1 U1]; U3 U3 [0 => U0 U0, 1 => U0 U2, 2 => U2 U0, 3 => U2 U1, 4 => U1 U2];
    U2 U3 [0 => U0 U0, 1 => U0 U2, 2 => U1 U0, 3 => U1 U2]; U3 U2 [0 => U0 U0, 1 => U0 U1, 2 => U2 U0, 3 => U2 U1];
    U4 U4 [0 => U0 U0, 1 => U0 U3, 2 => U3 U0, 3 => U3 U2, 4 => U2 U3]; U1 U8 [0 => U0 U0, 1 => U0 U7]; U8 U1 [0 => U0 U0, 1 => U7 U0];
    U5 U7 [0 => U0 U0, 1 => U0 U6, 2 => U4 U0, 3 => U4 U6]; U6 U6 [0 => U0 U0, 1 => U0 U5, 2 => U5 U0, 3 => U5 U4]; U8 U8 [0 => U0 U0, 1 => U7 U7, 2 => U7 U0, 3 => U0 U7];
    U0 U0 []; U0 U3 []; U3 U0 []; U5 U5 [0 => U0 U0, 1 => U4 U3]; U16 U2 [0 => U0 U1, 1 => U15 U0, 2 => U15 U1]; U2 U16 [0 => U1 U15, 1 => U1 U0, 2 => U0 U15];
    U1 U32 [0 => U0 U31]; U32 U1 [0 => U31 U0]; U32 U32 [0 => U31 U31, 1 => U31 U0, 2 => U0 U31]; U17 U5 [0 => U16 U4]; U4 U1 [0 => U3 U0]; U1 U4 [0 => U0 U3]; U4 U3 [0 => U3 U2, 1 => U2 U0];
    U3 U4 [0 => U2 U3]; U2 U1 [0 => U1 U0]; U1 U2 [0 => U0 U1]; U10 U9 [0 => U9 U8]; U7 U4 [0 => U6 U3]; U9 U2 [0 => U8 U1, 1 => U8 U0]; U3 U11 [0 => U2 U10]; U12 U12 [0 => U11 U11, 1 => U0 U11]; U1 U0 []; U0 U1 []; U2 U6 [0 => U1 U5]; U6 U3 [0 => U5 U2, 1 => U5 U0]; U7 U7 [0 => U6 U6, 1 => U3 U6]; U1 U3 [0 => U0 U2]; U3 U1 [0 => U2 U0]; U21 U3 [0 => U20 U2]; U4 U29 [0 => U3 U28];
    // every other row and column count there is
    U9 U9 [0 => U8 U7, 1 => U0 U8]; U11 U11 [0 => U10 U9, 1 => U1 U10]; U16 U16 [0 => U15 U12, 1 => U8 U15]; U19 U19 [0 => U18 U17, 1 => U3 U18];
    U11 U31 [0 => U10 U30, 1 => U5 U10]; U13 U30 [0 => U12 U29, 1 => U6 U10]; U14 U28 [0 => U13 U27, 1 => U7 U9]; U15 U27 [0 => U14 U26, 1 => U7 U9]; U18 U26 [0 => U17 U25, 1 => U9 U8]; U19 U25 [0 => U18 U24, 1 => U9 U8]; U20 U24 [0 => U19 U23, 1 => U10 U8]; U22 U23 [0 => U21 U22, 1 => U11 U7]; U23 U22 [0 => U22 U21, 1 => U11 U7]; U24 U21 [0 => U23 U20, 1 => U12 U7]; U25 U20 [0 => U24 U19, 1 => U12 U6]; U26 U19 [0 => U25 U18, 1 => U13 U6]; U27 U18 [0 => U26 U17, 1 => U13 U6]; U28 U17 [0 => U27 U16, 1 => U14 U5]; U29 U15 [0 => U28 U14, 1 => U14 U5]; U30 U14 [0 => U29 U13, 1 => U15 U4]; U31 U13 [0 => U30 U12, 1 => U15 U4]; U5 U10 [0 => U4 U9, 1 => U2 U3];
}
pub const SHAPES: &[(i64, i64)] = &[
    (1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (4, 4), (1, 8), (8, 1), (5, 7), (6, 6), (8, 8), (0, 0), (0, 3), (3, 0), (5, 5), (16, 2), (2, 16),
    (1, 32), (32, 1), (32, 32), (17, 5), (4, 1), (1, 4), (4, 3), (3, 4), (2, 1), (1, 2), (10, 9), (7, 4),
    (9, 2), (3, 11), (12, 12), (1, 0), (0, 1), (2, 6), (6, 3), (7, 7), (1, 3), (3, 1), (21, 3), (4, 29),
    (11, 31), (13, 30), (14, 28), (15, 27), (18, 26), (19, 25), (20, 24), (22, 23), (23, 22), (24, 21), (25, 20), (26, 19), (27, 18), (28, 17), (29, 15), (30, 14), (31, 13), (5, 10),
];
#[macro_export]
macro_rules! with_shape {
    ($r:expr, $c:expr, $a:ident $b:ident => $e:expr) => {
        match ($r, $c) {
            (1, 1) => { type $a = U1; type $b = U1; $e } (2, 2) => { type $a = U2; type $b = U2; $e } (3, 3) => { type $a = U3; type $b = U3; $e }
            (2, 3) => { type $a = U2; type $b = U3; $e } (3, 2) => { type $a = U3; type $b = U2; $e } (4, 4) => { type $a = U4; type $b = U4; $e }
            (1, 8) => { type $a = U1; type $b = U8; $e } (8, 1) => { type $a = U8; type $b = U1; $e } (5, 7) => { type $a = U5; type $b = U7; $e }
            (6, 6) => { type $a = U6; type $b = U6; $e } (8, 8) => { type $a = U8; type $b = U8; $e } (0, 0) => { type $a = U0; type $b = U0; $e }
            (0, 3) => { type $a = U0; type $b = U3; $e } (3, 0) => { type $a = U3; type $b = U0; $e } (5, 5) => { type $a = U5; type $b = U5; $e }
            (16, 2) => { type $a = U16; type $b = U2; $e } (2, 16) => { type $a = U2; type $b = U16; $e } (1, 32) => { type $a = U1; type $b = U32; $e }
            (32, 1) => { type $a = U32; type $b = U1; $e } (32, 32) => { type $a = U32; type $b = U32; $e } (17, 5) => { type $a = U17; type $b = U5; $e }
            (4, 1) => { type $a = U4; type $b = U1; $e } (1, 4) => { type $a = U1; type $b = U4; $e } (4, 3) => { type $a = U4; type $b = U3; $e }
            (3, 4) => { type $a = U3; type $b = U4; $e } (2, 1) => { type $a = U2; type $b = U1; $e } (1, 2) => { type $a = U1; type $b = U2; $e }
            (10, 9) => { type $a = U10; type $b = U9; $e } (7, 4) => { type $a = U7; type $b = U4; $e }
            (9, 2) => { type $a = U9; type $b = U2; $e } (3, 11) => { type $a = U3; type $b = U11; $e } (12, 12) => { type $a = U12; type $b = U12; $e }
            (1, 0) => { type $a = U1; type $b = U0; $e } (0, 1) => { type $a = U0; type $b = U1; $e } (2, 6) => { type $a = U2; type $b = U6; $e }
            (6, 3) => { type $a = U6; type $b = U3; $e } (7, 7) => { type $a = U7; type $b = U7; $e } (1, 3) => { type $a = U1; type $b = U3; $e }
            (3, 1) => { type $a = U3; type $b = U1; $e } (21, 3) => { type $a = U21; type $b = U3; $e } (4, 29) => { type $a = U4; type $b = U29; $e }
            (11, 31) => { type $a = U11; type $b = U31; $e } (13, 30) => { type $a = U13; type $b = U30; $e } (14, 28) => { type $a = U14; type $b = U28; $e }
            (15, 27) => { type $a = U15; type $b = U27; $e } (18, 26) => { type $a = U18; type $b = U26; $e } (19, 25) => { type $a = U19; type $b = U25; $e }
            (20, 24) => { type $a = U20; type $b = U24; $e } (22, 23) => { type $a = U22; type $b = U23; $e } (23, 22) => { type $a = U23; type $b = U22; $e }
            (24, 21) => { type $a = U24; type $b = U21; $e } (25, 20) => { type $a = U25; type $b = U20; $e } (26, 19) => { type $a = U26; type $b = U19; $e }
            (27, 18) => { type $a = U27; type $b = U18; $e } (28, 17) => { type $a = U28; type $b = U17; $e } (29, 15) => { type $a = U29; type $b = U15; $e }
            (30, 14) => { type $a = U30; type $b = U14; $e } (31, 13) => { type $a = U31; type $b = U13; $e } (5, 10) => { type $a = U5; type $b = U10; $e }
            _ => panic!("bad shape"),
        }
    };
}

pub fn check_reads<R: MN<C>, C: MN<R>>(op: &str, x: &Matrix<Tok, R, C>, m: &[u64]) where Matrix<Tok, R, C>: StaticIdx {
    let (r, c) = (R::to_usize(), C::to_usize());
    let a = rdm(x);
    if a != m { viol!("torn", "{}: contents {} instead of {}", op, short(&a), short(m)); return; }
    let b: Vec<u64> = x.rows_iter_ref().flat_map(|row| row.iter().map(|t| t.val()).collect::<Vec<_>>()).collect();
    let d: Vec<u64> = x.cols_iter_ref().flat_map(|col| col.map(|t| t.val()).collect::<Vec<_>>()).collect();
    let e: Vec<u64> = (0..r * c).map(|k| unsafe { x.get_unchecked((k / c, k % c)) }.val()).collect();
    for (p, g) in [("rows_iter_ref", b), ("cols_iter_ref", transpose(&d, c, r)), ("get_unchecked", e)] {
        if g != m { viol!("torn", "{}: {} reads {} instead of {}", op, p, short(&g), short(m)); }
    }
    for k in 0..8 {
        if let Some(((i, j), t)) = x.get(k) {
            if t.val() != m[i * c + j] { viol!("torn", "{}: static index ({},{}) reads {} instead of {}", op, i, j, t.val(), m[i * c + j]); }
        }
    }
    if x.dim() != (r, c) || x.rows() != r || x.cols() != c { viol!("torn", "{}: dim/rows/cols wrong", op); }
}

pub fn mmut<R: MN<C>, C: MN<R>>(cx: &mut Cx, x: &mut Matrix<Tok, R, C>, xm: &mut Vec<u64>, op: &str, args: &[i64]) where Matrix<Tok, R, C>: StaticIdx {
    let (r, c) = (R::to_usize(), C::to_usize());
    let n = r * c;
    let sc = scalar(args[0]);
    let ym = vals(args[1], n);
    let k = if n > 0 { args[2].unsigned_abs() as usize % n } else { 0 };
    let (i, j) = if n > 0 { (k / c, k % c) } else { (0, 0) };
    w().opname = name_of(MMUT, op);
    let old = xm.clone();
    let mut new = old.clone();
    let mut expect_panic = false;
    let (mut lo, mut hi) = (sc % 5, sc % 5 + (args[1].unsigned_abs() % 4));
    let crossed = op == "clamp" && args[3] % 6 == 0 && lo < hi && !hostile();
    if crossed { std::mem::swap(&mut lo, &mut hi); }
    match op {
        "clone_from" => new = ym.clone(),
        "add_assign" => new = zip(&old, &ym, fadd),
        "sub_assign" => new = zip(&old, &ym, fsub),
        "mul_assign" => new = mapv(&old, |v| fmul(v, sc)),
        "div_assign" => new = mapv(&old, |v| fdiv(v, sc)),
        "clamp" => new = clampv(&old, lo, hi),
        "set" | "get_mut" => if n > 0 { new[k] = sc },
        "set_static" => if let Some(((a, b), _)) = x.get(args[2].unsigned_abs() as usize) { new[a * c + b] = sc },
        "oob_read" | "oob_write" => expect_panic = true,
        "replace" => new = ym.clone(),
        _ => { viol!("harness", "unknown op {}", op); return; }
    }
    // an index with at least one coordinate out of range
    let far = match args[2].unsigned_abs() % 6 { 0 => (r, j), 1 => (i, c), 2 => (r, c), 3 => (usize::MAX, 0), 4 => (0, c + args[3].unsigned_abs() as usize % 5), _ => (r + args[3].unsigned_abs() as usize % 5, 0) };
    fn act<R: MN<C>, C: MN<R>>(a: &mut Att, x: &mut Matrix<Tok, R, C>, op: &str, args: &[i64], sc: u64, ym: &[u64], lo: u64, hi: u64, n: usize, ij: (usize, usize), far: (usize, usize), sel: &mut (u32, u32)) -> Res<()> where Matrix<Tok, R, C>: StaticIdx {
        match op {
            "add_assign" => { let y = mkm::<R, C>(ym); a.run(|| *x += y) }
            "sub_assign" => { let y = mkm::<R, C>(ym); a.run(|| *x -= y) }
            "mul_assign" => { let s = Tok::new(sc); a.run(|| std::ops::MulAssign::<Tok>::mul_assign(x, s)) }
            "div_assign" => { let s = Tok::new(sc); a.run(|| *x /= s) }
            "clamp" => { let (l, h) = (Tok::new(lo), Tok::new(hi)); *sel = (l.root(), h.root()); a.run(|| x.clamp(l, h)) }
            "set" => { let s = Tok::new(sc); a.run(|| if n > 0 { x[ij] = s }) }
            "get_mut" => { let s = Tok::new(sc); a.run(|| if n > 0 { unsafe { *x.get_unchecked_mut(ij) = s } }) }
            "set_static" => { let s = Tok::new(sc); a.run(|| if let Some((_, p)) = x.get_mut(args[2].unsigned_abs() as usize) { *p = s }) }
            "oob_read" => a.run(|| { let _ = x[far].val(); }),
            "oob_write" => { let s = Tok::new(sc); a.run(|| x[far] = s) }
            "replace" => { let y = mkm::<R, C>(ym); a.run(|| *x = y) }
            "clone_from" => { let y = mkm::<R, C>(ym); let q = a.run(|| x.clone_from(&y)); intact("source", rdm(&y), ym); q }
            _ => unreachable!(),
        }
    }
    let mut out = None;
    let mut sel = (0, 0);
    let before = rootsm(x);
    if crossed {
        let mut z = mkm::<R, C>(&old);
        let mut a = Att { fault: None, n: 0, d: 0, rehearsal: true, fired: false };
        if !act(&mut a, &mut z, op, args, sc, &ym, lo, hi, n, (i, j), far, &mut (0, 0)).is_ok() { return; }
        new = rdm(&z);
    }
    cx.once(
        &mut |a| { let mut z = mkm::<R, C>(&old); let _ = act(a, &mut z, op, args, sc, &ym, lo, hi, n, (i, j), far, &mut (0, 0)); },
        &mut |a| { out = Some(act(a, x, op, args, sc, &ym, lo, hi, n, (i, j), far, &mut sel)); },
    );
    let got = rdm(x);
    for &g in &got { w().ev(g); }
    match out.unwrap() {
        Res::Ok(()) => {
            if expect_panic { viol!("torn", "{}: index {:?} out of range was accepted", op, far); }
            *xm = if hostile() { got } else { new };
            check_reads(op, x, xm);
            if op == "clamp" {
                for (i, t) in rootsm(x).iter().enumerate() {
                    if *t != sel.0 && *t != sel.1 && *t != before[i] { viol!("select", "clamp: position {} holds neither its element nor a bound", i); }
                }
            }
        }
        Res::Injected => { if !hostile() { torn_elem(op, &got, &old, &new); } *xm = got; check_reads(op, x, xm); }
        Res::Panic(m) => {
            if !expect_panic { viol!("panic", "{}: unexpected panic {}", op, m); }
            if got != old { viol!("torn", "{}: contents changed by a rejected access", op); }
            w().stat("fault.bad_index_rejected");
        }
        Res::Budget => {}
    }
}

pub fn sqmut<N: SQ>(cx: &mut Cx, x: &mut Matrix<Tok, N, N>, xm: &mut Vec<u64>, op: &str, args: &[i64]) where Matrix<Tok, N, N>: StaticIdx {
    let n = N::to_usize();
    let ym = vals(args[1], n * n);
    w().opname = name_of(SQMUT, op);
    let old = xm.clone();
    if op == "cof_oob" {
        if n < 2 || n > 16 { return; }
        let (g, h) = (args[2].unsigned_abs() as usize, args[3].unsigned_abs() as usize);
        let far = match g % 6 { 0 => (n, h % n), 1 => (h % n, n), 2 => (n, n), 3 => (usize::MAX, 0), 4 => (0, n + h % 5), _ => (n + h % 5, n - 1) };
        let mut out = None;
        cx.once(&mut |_| {}, &mut |a| out = Some(a.run(|| N::cof(x, far))));
        match out.unwrap() {
            Res::Ok(_) => viol!("torn", "cof_oob: index {:?} out of range was accepted", far),
            Res::Panic(_) => w().stat("fault.bad_index_rejected"),
            _ => {}
        }
        let got = rdm(x);
        if got != old { viol!("torn", "cof_oob: contents changed by a rejected access"); }
        return;
    }
    let new = if op == "transpose" { transpose(&old, n, n) } else { matmul(&old, &ym, n, n, n) };
    let act = |a: &mut Att, x: &mut Matrix<Tok, N, N>| -> Res<()> {
        if op == "transpose" { a.run(|| x.transpose()) } else { let y = mkm::<N, N>(&ym); a.run(|| std::ops::MulAssign::<Matrix<Tok, N, N>>::mul_assign(x, y)) }
    };
    let mut out = None;
    let before = rootsm(x);
    cx.once(&mut |a| { let mut z = mkm::<N, N>(&old); let _ = act(a, &mut z); }, &mut |a| out = Some(act(a, x)));
    let got = rdm(x);
    for &g in &got { w().ev(g); }
    match out.unwrap() {
        Res::Ok(()) => {
            *xm = if hostile() { got } else { new };
            check_reads(op, x, xm);
            if op == "transpose" {
                let (b, z) = (&before, rootsm(x));
                if (0..n * n).any(|k| z[k] != b[k % n * n + k / n]) { viol!("select", "transpose: holds something that is not its element"); }
            }
        }
        Res::Injected => { if !hostile() { torn_whole(op, &got, &old, &new); } *xm = got; check_reads(op, x, xm); }
        Res::Panic(m) => viol!("panic", "{}: unexpected panic {}", op, m),
        Res::Budget => {}
    }
}
