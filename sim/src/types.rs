//! The same operations over element types of other layouts: nothing at all, one
//! byte, odd sizes, over-aligned and large, niches, nothing to drop, nested vectors.
use crate::cx::{intact, short};
use crate::iters::{drive, It, MKINDS};
use crate::model::*;
use crate::plan::*;
use crate::viol;
use crate::vops::name_of;
use crate::world::*;
use rowcol::matrix::iter::*;
use rowcol::prelude::*;
use rowcol::typenum::Unsigned;
use rowcol::vector::ArrayLen;
use std::collections::VecDeque;
use std::num::NonZeroU64;

pub trait El: Clone + 'static {
    fn mk(v: u64) -> Self;
    fn rd(&self) -> u64;
    /// what reading back `mk(v)` gives
    fn red(v: u64) -> u64;
}
/// takes no space, yet has a destructor that counts
pub struct Z;
impl Drop for Z {
    fn drop(&mut self) {
        w().zlive -= 1;
        if w().zlive < 0 { viol("own", format!("{}: zero-sized element dropped twice", w().opname)); }
        cb(Site::Drop);
    }
}
impl Clone for Z { fn clone(&self) -> Z { cb(Site::Clone); Z::mk(0) } }
impl El for Z {
    fn mk(_: u64) -> Z { w().zlive += 1; Z }
    fn rd(&self) -> u64 { 0 }
    fn red(_: u64) -> u64 { 0 }
}
#[derive(Clone, Copy)]
pub struct B1(u8);
impl El for B1 { fn mk(v: u64) -> B1 { B1(v as u8) } fn rd(&self) -> u64 { self.0 as u64 } fn red(v: u64) -> u64 { v & 255 } }
#[derive(Clone, Copy)]
pub struct Odd([u8; 3]);
impl El for Odd {
    fn mk(v: u64) -> Odd { Odd([v as u8, (v >> 8) as u8, (v >> 16) as u8]) }
    fn rd(&self) -> u64 { self.0[0] as u64 | (self.0[1] as u64) << 8 | (self.0[2] as u64) << 16 }
    fn red(v: u64) -> u64 { v & 0xffffff }
}
#[repr(align(64))]
#[derive(Clone)]
pub struct Fat { t: Tok, pad: [u64; 13] }
impl El for Fat {
    fn mk(v: u64) -> Fat { Fat { t: Tok::new(v), pad: [v % P; 13] } }
    fn rd(&self) -> u64 {
        if self as *const Fat as usize % 64 != 0 { viol!("own", "{}: element placed at an address its type does not allow", w().opname); }
        if self.pad.iter().any(|&p| p != self.pad[0]) || self.pad[0] != self.t.val() { viol!("own", "{}: element is made of parts of others", w().opname); }
        self.t.val()
    }
    fn red(v: u64) -> u64 { v % P }
}
#[derive(Clone)]
pub struct Nz(Option<NonZeroU64>);
impl El for Nz {
    fn mk(v: u64) -> Nz { Nz(NonZeroU64::new(v)) }
    fn rd(&self) -> u64 { self.0.map_or(0, |x| x.get()) }
    fn red(v: u64) -> u64 { v }
}
/// Nothing to drop, yet no two of a kind: a clone is a new one, marked as such.
pub struct Uniq { v: u64, copies: u32 }
impl Clone for Uniq { fn clone(&self) -> Uniq { cb(Site::Clone); Uniq { v: self.v, copies: self.copies + 1 } } }
impl El for Uniq {
    fn mk(v: u64) -> Uniq { Uniq { v, copies: 0 } }
    fn rd(&self) -> u64 { if w().fresh && self.copies == 0 { viol!("own", "{}: an element that is still in use elsewhere was duplicated without cloning it", w().opname); } self.v }
    fn red(v: u64) -> u64 { v }
}
/// Reads a value whose elements must all be clones.
fn fresh<R>(f: impl FnOnce() -> R) -> R { w().fresh = true; let r = f(); w().fresh = false; r }
impl El for Vector<Tok, U2> {
    fn mk(v: u64) -> Self { Vector::new([Tok::new(v), Tok::new(v + 1)]) }
    fn rd(&self) -> u64 { if self[1].val() != fadd(self[0].val(), 1) { viol!("own", "{}: element is made of parts of others", w().opname); } self[0].val() }
    fn red(v: u64) -> u64 { v % P }
}

/// Right operands and results of types of their own: `Tok (op) Rh = Wide`.
#[derive(Clone)]
pub struct Rh { pad: u8, t: Tok }
impl El for Rh {
    fn mk(v: u64) -> Rh { Rh { pad: v as u8, t: Tok::new(v) } }
    fn rd(&self) -> u64 { if self.pad as u64 != self.t.val() & 255 { viol!("own", "{}: operand is made of parts of others", w().opname); } self.t.val() }
    fn red(v: u64) -> u64 { v % P }
}
type Wide = Fat;
fn wide(t: Tok) -> Wide { let v = t.val(); Fat { t, pad: [v % P; 13] } }
macro_rules! het {
    ($($tr:ident $f:ident $o:tt;)*) => {$(
        impl std::ops::$tr<Rh> for Tok { type Output = Wide; fn $f(self, r: Rh) -> Wide { wide(self $o r.t) } }
        impl<'a> std::ops::$tr<&'a Rh> for Tok { type Output = Wide; fn $f(self, r: &'a Rh) -> Wide { wide(self $o &r.t) } }
        impl<'b> std::ops::$tr<Rh> for &'b Tok { type Output = Wide; fn $f(self, r: Rh) -> Wide { wide(self $o r.t) } }
        impl<'a, 'b> std::ops::$tr<&'a Rh> for &'b Tok { type Output = Wide; fn $f(self, r: &'a Rh) -> Wide { wide(self $o &r.t) } }
    )*};
}
het! { Add add +; Sub sub -; }
macro_rules! het1 {
    ($($tr:ident $f:ident $o:tt;)*) => {$(
        impl std::ops::$tr<Rh> for Tok { type Output = Wide; fn $f(self, r: Rh) -> Wide { wide(self $o r.t) } }
        impl<'a> std::ops::$tr<&'a Rh> for Tok { type Output = Wide; fn $f(self, r: &'a Rh) -> Wide { wide(self $o &r.t) } }
    )*};
}
het1! { Mul mul *; Div div /; }
impl std::ops::Neg for Rh { type Output = Wide; fn neg(self) -> Wide { wide(-self.t) } }
macro_rules! heta { ($($tr:ident $f:ident $o:tt;)*) => {$( impl std::ops::$tr<Rh> for Tok { fn $f(&mut self, r: Rh) { *self $o r.t; } } )*}; }
heta! { AddAssign add_assign +=; SubAssign sub_assign -=; MulAssign mul_assign *=; DivAssign div_assign /=; }
impl PartialEq<Rh> for Tok { fn eq(&self, r: &Rh) -> bool { *self == r.t } }

pub const THET: usize = 17;
/// Operations of vectors whose right operands and results have other types than their elements.
#[inline(never)]
fn het<N: ArrayLen<Tok> + ArrayLen<Rh> + ArrayLen<Wide>>(st: &Step, v: &[u64]) {
    let n = N::to_usize();
    let f = dot(st.faults.first(), n * 2);
    let (xm, ym) = (red::<Tok>(v), red::<Rh>(&vals(st.args[1], n)));
    let s = scalar(st.args[2]);
    let (x, y) = (mkv::<Tok, N>(&xm), mkv::<Rh, N>(&ym));
    macro_rules! got { ($q:expr, $e:expr) => {{ let (q, ..) = $q; same(map(q, |z| rdv(&z)), $e) }}; }
    macro_rules! inplace { ($x:ident, $q:expr, $new:expr) => {{
        let (q, ..) = $q;
        let new: Vec<u64> = $new;
        match q {
            Res::Ok(()) => { let g = rdv(&$x); if g != new { viol!("torn", "thet: contents {} instead of {}", short(&g), short(&new)); } }
            Res::Injected => for (i, g) in rdv(&$x).into_iter().enumerate() { if g != xm[i] && g != new[i] { viol!("torn", "thet: after a failure element {} is {}, neither old {} nor new {}", i, g, xm[i], new[i]); } },
            Res::Panic(m) => viol!("panic", "thet: {}", m),
            _ => {}
        }
    }}; }
    match st.args[0].unsigned_abs() as usize % THET {
        0 => { got!(run(f, || x + y), zip(&xm, &ym, fadd)); return; }
        1 => { got!(run(f, || x + &y), zip(&xm, &ym, fadd)); intact("y", rdv(&y), &ym); return; }
        2 => { got!(run(f, || &x + y), zip(&xm, &ym, fadd)); intact("x", rdv(&x), &xm); return; }
        3 => got!(run(f, || &x + &y), zip(&xm, &ym, fadd)),
        4 => { got!(run(f, || x - y), zip(&xm, &ym, fsub)); return; }
        5 => { got!(run(f, || x - &y), zip(&xm, &ym, fsub)); intact("y", rdv(&y), &ym); return; }
        6 => { got!(run(f, || &x - y), zip(&xm, &ym, fsub)); intact("x", rdv(&x), &xm); return; }
        7 => got!(run(f, || &x - &y), zip(&xm, &ym, fsub)),
        8 => { let r = Rh::mk(s); got!(run(f, || x * r), mapv(&xm, |v| fmul(v, s))); return; }
        9 => { let r = Rh::mk(s); got!(run(f, || x / r), mapv(&xm, |v| fdiv(v, s))); return; }
        10 => { let r = Rh::mk(s); got!(run(f, || x * &r), mapv(&xm, |v| fmul(v, s))); if r.rd() != s { viol!("intact", "thet: scalar changed"); } return; }
        11 => { got!(run(f, || -y), mapv(&ym, fneg)); return; }
        12 => { let mut x = x; inplace!(x, run(f, || x += y), zip(&xm, &ym, fadd)); return; }
        13 => { let mut x = x; inplace!(x, run(f, || x -= y), zip(&xm, &ym, fsub)); return; }
        14 => { let mut x = x; let r = Rh::mk(s); inplace!(x, run(f, || x *= r), mapv(&xm, |v| fmul(v, s))); return; }
        15 => { let mut x = x; let r = Rh::mk(s); inplace!(x, run(f, || x /= r), mapv(&xm, |v| fdiv(v, s))); return; }
        _ => {
            let z = mkv::<Rh, N>(&xm);
            let (q, ..) = run(f, || (x == z, x == y, x != y));
            same(map(q, |(a, b, c)| vec![a as u64, b as u64, c as u64]), vec![1, (xm == ym) as u64, (xm != ym) as u64]);
        }
    }
    intact("x", rdv(&x), &xm);
    intact("y", rdv(&y), &ym);
}
/// `+=` and `-=` of a matrix of other elements.
#[inline(never)]
fn hetm<R, C>(st: &Step, v: &[u64])
where R: ArrayLen<Vector<Tok, C>> + ArrayLen<Vector<Rh, C>>, C: ArrayLen<Tok> + ArrayLen<Rh> {
    let n = R::to_usize() * C::to_usize();
    let f = dot(st.faults.first(), n);
    let (xm, ym) = (red::<Tok>(v), red::<Rh>(&vals(st.args[1], n)));
    let (mut x, y) = (mkm::<Tok, R, C>(&xm), mkm::<Rh, R, C>(&ym));
    let add = st.args[0] % 2 == 0;
    let (q, ..) = run(f, || if add { x += y } else { x -= y });
    let new = zip(&xm, &ym, if add { fadd } else { fsub });
    let got = rdm(&x);
    match q {
        Res::Ok(()) => if got != new { viol!("torn", "tmhet: contents {} instead of {}", short(&got), short(&new)); },
        Res::Injected => for i in 0..n { if got[i] != xm[i] && got[i] != new[i] { viol!("torn", "tmhet: after a failure element {} is {}, neither old {} nor new {}", i, got[i], xm[i], new[i]); } },
        Res::Panic(m) => viol!("panic", "tmhet: {}", m),
        _ => {}
    }
}
impl El for Tok {
    fn mk(v: u64) -> Tok { Tok::new(v) }
    fn rd(&self) -> u64 { self.val() }
    fn red(v: u64) -> u64 { v % P }
}

pub const TKINDS: usize = 7;
pub const TVOPS: &[&str] = &["tgenerate", "tclone", "titer", "tset", "tcollect", "tsum", "tinner", "titer_mut", "thet", "thet", "tchunks", "tfrom"];
pub const TMOPS: &[&str] = &["tmgenerate", "tmclone", "tmrows", "tmset", "tmap", "tmap_out", "ttransposed", "tmnew", "tmall", "tmhet"];
pub const TLENS: &[i64] = &[0, 1, 3, 8, 17];
pub const TSHAPES: &[(i64, i64)] = &[(1, 1), (2, 3), (3, 3), (4, 1), (0, 2), (5, 6)];

fn dot(f: Option<&Fault>, n: usize) -> Option<(u8, u32)> {
    f.map(|f| (kindno(f.kind), match f.at { At::Abs(x) => x, At::Frac(x) => ((x as u64 * n.max(1) as u64) >> 16) as u32 }))
}
fn red<E: El>(v: &[u64]) -> Vec<u64> { v.iter().map(|&x| E::red(x)).collect() }
fn same(r: Res<Vec<u64>>, e: Vec<u64>) {
    match r {
        Res::Ok(g) => if g != e { viol!("value", "{}: gave {} instead of {}", w().opname, short(&g), short(&e)); },
        Res::Panic(m) => viol!("panic", "{}: panicked by itself: {}", w().opname, m),
        _ => {}
    }
}
fn map<A, B>(r: Res<A>, f: impl FnOnce(A) -> B) -> Res<B> {
    match r { Res::Ok(a) => Res::Ok(f(a)), Res::Injected => Res::Injected, Res::Panic(m) => Res::Panic(m), Res::Budget => Res::Budget }
}

fn mkv<E: El, N: ArrayLen<E>>(v: &[u64]) -> Vector<E, N> { Vector::generate(|i| E::mk(v[i])) }
fn rdv<E: El, N: ArrayLen<E>>(v: &Vector<E, N>) -> Vec<u64> { v.as_slice().iter().map(|t| t.rd()).collect() }

/// The iterator history planned by the rest of the steps.
fn rest(steps: &[Step]) -> Vec<Step> {
    let mut v: Vec<Step> = steps.iter().filter(|s| s.op.starts_with("it:")).cloned().collect();
    for s in &mut v { s.op = s.op[3..].into(); }
    v
}

#[inline(never)]
fn vec<E: El, N: ArrayLen<E> + ArrayLen<Tok> + ArrayLen<Rh> + ArrayLen<Wide>>(p: &Plan) {
    let n = N::to_usize();
    let v = vals(p.shape[2], n);
    let e = red::<E>(&v);
    let x = mkv::<E, N>(&v);
    let (mut y, mut ym) = (mkv::<E, N>(&v), e.clone());
    for st in p.steps.iter().filter(|s| !s.op.starts_with("it:")) {
        if !w().viol.is_empty() { return; }
        w().opname = name_of(TVOPS, &st.op);
        let f = dot(st.faults.first(), n);
        let k = if n > 0 { st.args[0].unsigned_abs() as usize % n } else { 0 };
        let k2 = if n > 0 { st.args[1].unsigned_abs() as usize % n } else { 0 };
        match &st.op[..] {
            "tgenerate" => { let (r, ..) = run(f, || Vector::<E, N>::generate(|i| { cb(Site::Closure); E::mk(v[i]) })); same(map(r, |z| rdv(&z)), e.clone()); }
            "tclone" => { let (r, ..) = run(f, || x.clone()); same(map(r, |z| fresh(|| rdv(&z))), e.clone()); intact("x", rdv(&x), &e); }
            "titer" => {
                let mut it = It { it: Some(mkv::<E, N>(&v).into_iter()), rd: |t: E| vec![t.rd()] };
                drive(&mut it, e.iter().map(|&x| vec![x]).collect(), &rest(&p.steps));
            }
            "tset" => {
                if n == 0 { continue; }
                let nv = st.args[2].unsigned_abs() >> 3;
                let z = E::mk(nv);
                let (r, ..) = run(f, || { y[k] = z; y.as_slice_mut().swap(k, k2); });
                match r {
                    Res::Ok(()) => { ym[k] = E::red(nv); ym.swap(k, k2); let g = rdv(&y); if g != ym { viol!("torn", "tset: contents {} instead of {}", short(&g), short(&ym)); } }
                    Res::Injected => ym = rdv(&y),
                    Res::Panic(m) => viol!("panic", "tset: {}", m),
                    _ => {}
                }
            }
            "tcollect" => {
                let mut it = v.iter();
                let (r, ..) = run(f, || (0..n).map(|_| { cb(Site::Src); E::mk(*it.next().unwrap()) }).collect::<Vector<E, N>>());
                same(map(r, |z| rdv(&z)), e.clone());
            }
            "tsum" => {
                let a = mkv::<E, N>(&v);
                let (r, ..) = run(f, || a.into_iter().map(|t| { cb(Site::Closure); t.rd() }).collect::<Vec<u64>>());
                same(r, e.clone());
            }
            "tinner" => {
                let a = mkv::<E, N>(&v);
                let (r, ..) = run(f, || Vector::<E, N>::new(a.into_inner()));
                same(map(r, |z| rdv(&z)), e.clone());
            }
            "titer_mut" => {
                let (r, ..) = run(f, || for t in y.iter_mut() { cb(Site::Closure); *t = E::mk(t.rd()); });
                if let Res::Panic(m) = r { viol!("panic", "titer_mut: {}", m); }
                let g = rdv(&y);
                if g != ym { viol!("torn", "titer_mut: contents {} instead of {}", short(&g), short(&ym)); }
            }
            "thet" => het::<N>(st, &v),
            "tchunks" => chunks::<E>(st, &rest(&p.steps)),
            "tfrom" => froms::<E>(st, f),
            _ => { viol!("harness", "bad op {}", st.op); return; }
        }
        if x.len() != n || x.is_empty() != (n == 0) { viol!("value", "len()/is_empty() wrong"); }
    }
}

/// Chunk iterators of these elements, and what matrices are made from with them.
#[inline(never)]
fn chunks<E: El>(st: &Step, steps: &[Step]) {
    macro_rules! go { ($n:ident $c:ident) => {{
        let (n, c) = (<$n as Unsigned>::USIZE, <$c as Unsigned>::USIZE);
        let v = vals(st.args[1], n);
        let mut it = It { it: Some(mkv::<E, $n>(&v).into_chunks::<$c>()), rd: |t: Vector<E, $c>| rdv(&t) };
        drive(&mut it, red::<E>(&v).chunks(c).map(|x| x.to_vec()).collect(), steps);
    }}; }
    match st.args[0].unsigned_abs() % 5 { 0 => go!(U6 U2), 1 => go!(U6 U3), 2 => go!(U8 U4), 3 => go!(U3 U1), _ => go!(U16 U4) }
}
#[inline(never)]
fn froms<E: El>(st: &Step, f: Option<(u8, u32)>) {
    macro_rules! go { ($n:ident $r:ident $c:ident) => {{
        let v = vals(st.args[1], <$n as Unsigned>::USIZE);
        let a = mkv::<E, $n>(&v);
        let (q, ..) = run(f, || Matrix::<E, $r, $c>::from(a));
        same(map(q, |z| rdm(&z)), red::<E>(&v));
    }}; }
    match st.args[0].unsigned_abs() % 3 { 0 => go!(U6 U2 U3), 1 => go!(U8 U4 U2), _ => go!(U16 U4 U4) }
}

pub trait TM<E, C>: ArrayLen<Vector<Tok, C>> + ArrayLen<Vector<Rh, C>> + ArrayLen<Vector<E, C>> + ArrayLen<Vector<B1, C>> + ArrayLen<Vector<Fat, C>> + ArrayLen<Vector<Z, C>> + ArrayLen<E> + ArrayLen<<C as ArrayLen<E>>::Array>
where C: ArrayLen<E> + ArrayLen<B1> + ArrayLen<Fat> + ArrayLen<Z> + ArrayLen<Tok> + ArrayLen<Rh> {}
impl<E, R, C> TM<E, C> for R where
    C: ArrayLen<E> + ArrayLen<B1> + ArrayLen<Fat> + ArrayLen<Z> + ArrayLen<Tok> + ArrayLen<Rh>,
    R: ArrayLen<Vector<Tok, C>> + ArrayLen<Vector<Rh, C>> + ArrayLen<Vector<E, C>> + ArrayLen<Vector<B1, C>> + ArrayLen<Vector<Fat, C>> + ArrayLen<Vector<Z, C>> + ArrayLen<E> + ArrayLen<<C as ArrayLen<E>>::Array> {}

fn mkm<E: El, R: ArrayLen<Vector<E, C>>, C: ArrayLen<E>>(v: &[u64]) -> Matrix<E, R, C> { let c = C::to_usize(); Matrix::generate(|(i, j)| E::mk(v[i * c + j])) }
fn rdm<E: El, R: ArrayLen<Vector<E, C>>, C: ArrayLen<E>>(m: &Matrix<E, R, C>) -> Vec<u64> {
    let mut o = vec![];
    for i in 0..R::to_usize() { for j in 0..C::to_usize() { o.push(m[(i, j)].rd()); } }
    o
}

#[inline(never)]
fn mat<E: El, R: TM<E, C>, C: TM<E, R>>(p: &Plan)
where C: ArrayLen<E> + ArrayLen<B1> + ArrayLen<Fat> + ArrayLen<Z> + ArrayLen<Tok> + ArrayLen<Rh>, R: ArrayLen<E> + ArrayLen<B1> + ArrayLen<Fat> + ArrayLen<Z> + ArrayLen<Tok> + ArrayLen<Rh> {
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let n = r * c;
    let v = vals(p.shape[3], n);
    let e = red::<E>(&v);
    let x = mkm::<E, R, C>(&v);
    let (mut y, mut ym) = (mkm::<E, R, C>(&v), e.clone());
    for st in p.steps.iter().filter(|s| !s.op.starts_with("it:")) {
        if !w().viol.is_empty() { return; }
        w().opname = name_of(TMOPS, &st.op);
        let f = dot(st.faults.first(), n);
        let k = if n > 0 { st.args[0].unsigned_abs() as usize % n } else { 0 };
        match &st.op[..] {
            "tmgenerate" => { let (q, ..) = run(f, || Matrix::<E, R, C>::generate(|(i, j)| { cb(Site::Closure); E::mk(v[i * c + j]) })); same(map(q, |z| rdm(&z)), e.clone()); }
            "tmclone" => { let (q, ..) = run(f, || x.clone()); same(map(q, |z| fresh(|| rdm(&z))), e.clone()); intact("x", rdm(&x), &e); }
            "ttransposed" => { let (q, ..) = run(f, || x.transposed()); same(map(q, |z| fresh(|| rdm(&z))), transpose(&e, r, c)); intact("x", rdm(&x), &e); }
            "tmrows" => {
                let steps = rest(&p.steps);
                let kind = MKINDS[st.args[0].unsigned_abs() as usize % 5];
                let rows: VecDeque<Vec<u64>> = (0..r).map(|i| e[i * c..(i + 1) * c].to_vec()).collect();
                let t = transpose(&e, r, c);
                let cols: VecDeque<Vec<u64>> = (0..c).map(|j| t[j * r..(j + 1) * r].to_vec()).collect();
                match kind {
                    "rows" => drive(&mut It { it: Some(x.rows_iter()), rd: |l: Vector<E, C>| fresh(|| rdv(&l)) }, rows, &steps),
                    "cols" => drive(&mut It { it: Some(x.cols_iter()), rd: |l: Vector<E, R>| fresh(|| rdv(&l)) }, cols, &steps),
                    "rows_ref" => drive(&mut It { it: Some(x.rows_iter_ref()), rd: |l: &[E]| l.iter().map(|t| t.rd()).collect() }, rows, &steps),
                    "cols_ref" => drive(&mut It { it: Some(x.cols_iter_ref()), rd: |l: ColsIterRefInner<E, R, C>| l.map(|t| t.rd()).collect() }, cols, &steps),
                    _ => {
                        if c == 0 { continue; }
                        let j = k % c;
                        drive(&mut It { it: x.cols_iter_ref().nth(j), rd: |t: &E| vec![t.rd()] }, cols[j].iter().map(|&x| vec![x]).collect(), &steps)
                    }
                }
                intact("x", rdm(&x), &e);
            }
            "tmset" => {
                if n == 0 { continue; }
                let nv = st.args[2].unsigned_abs() >> 3;
                let z = E::mk(nv);
                let (q, ..) = run(f, || y[(k / c, k % c)] = z);
                match q {
                    Res::Ok(()) => { ym[k] = E::red(nv); let g = rdm(&y); if g != ym { viol!("torn", "tmset: contents {} instead of {}", short(&g), short(&ym)); } }
                    Res::Injected => ym = rdm(&y),
                    Res::Panic(m) => viol!("panic", "tmset: {}", m),
                    _ => {}
                }
            }
            "tmap" | "tmap_out" => {
                // from this layout into another one
                let a = mkm::<E, R, C>(&v);
                let mut calls = 0;
                let mut chk = |i: usize, j: usize, t: &E| { if i * c + j != calls || t.rd() != e[calls] { viol!("value", "{}: call {} was for ({},{}) with another element", w().opname, calls, i, j); } calls += 1; };
                match st.args[0].unsigned_abs() % 4 {
                    0 => { let (q, ..) = run(f, || a.map(|(i, j), t| { chk(i, j, &t); cb(Site::Closure); B1::mk(t.rd()) })); same(map(q, |z| rdm(&z)), red::<B1>(&e)); }
                    1 => { let (q, ..) = run(f, || a.map(|(i, j), t| { chk(i, j, &t); cb(Site::Closure); Fat::mk(t.rd()) })); same(map(q, |z| rdm(&z)), red::<Fat>(&e)); }
                    2 => { let (q, ..) = run(f, || a.map(|(i, j), t| { chk(i, j, &t); cb(Site::Closure); Z::mk(t.rd()) })); same(map(q, |z| rdm(&z)), vec![0; n]); }
                    _ => { let (q, ..) = run(f, || a.map(|(i, j), t| { chk(i, j, &t); cb(Site::Closure); t })); same(map(q, |z| rdm(&z)), e.clone()); }
                }
            }
            "tmnew" => {
                let a: Vector<<C as ArrayLen<E>>::Array, R> = Vector::generate(|i| mkv::<E, C>(&v[i * c..(i + 1) * c]).into_inner());
                let a = a.into_inner();
                let (q, ..) = run(f, || Matrix::<E, R, C>::new(a));
                same(map(q, |z| rdm(&z)), e.clone());
            }
            "tmall" => {
                let mut calls = 0;
                let (q, ..) = run(f, || x.all(|(i, j), t| { if i * c + j != calls || t.rd() != e[calls] { viol!("value", "tmall: call {} was for ({},{})", calls, i, j); } calls += 1; cb(Site::Closure); true }));
                same(map(q, |b| vec![b as u64]), vec![1]);
            }
            "tmhet" => hetm::<R, C>(st, &v),
            _ => { viol!("harness", "bad op {}", st.op); return; }
        }
        if x.dim() != (r, c) { viol!("value", "dim() wrong"); }
    }
}

macro_rules! with_el {
    ($k:expr, $e:ident => $x:expr) => {
        match $k { 0 => { type $e = Z; $x } 1 => { type $e = B1; $x } 2 => { type $e = Odd; $x } 3 => { type $e = Fat; $x } 4 => { type $e = Nz; $x } 5 => { type $e = Uniq; $x } _ => { type $e = Vector<Tok, U2>; $x } }
    };
}
pub fn vecs(p: &Plan) {
    macro_rules! go { ($n:ident) => { with_el!(p.shape[0], E => vec::<E, $n>(p)) } }
    match p.shape[1] { 0 => go!(U0), 1 => go!(U1), 3 => go!(U3), 8 => go!(U8), _ => go!(U17) }
}
pub fn mats(p: &Plan) {
    macro_rules! go { ($r:ident $c:ident) => { with_el!(p.shape[0], E => mat::<E, $r, $c>(p)) } }
    match (p.shape[1], p.shape[2]) { (1, 1) => go!(U1 U1), (2, 3) => go!(U2 U3), (3, 3) => go!(U3 U3), (4, 1) => go!(U4 U1), (0, 2) => go!(U0 U2), _ => go!(U5 U6) }
}
