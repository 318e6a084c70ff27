//! A floating-point element whose every operation is a call back into caller code
//! that may fail: what norm and normalized run on.
use crate::world::*;
use num::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::num::FpCategory;
use std::ops::*;

#[derive(Copy, PartialEq, PartialOrd, Debug)]
pub struct Fl(pub f64);
#[allow(clippy::expl_impl_clone_on_copy)]
impl Clone for Fl { fn clone(&self) -> Fl { cb(Site::Clone); Fl(self.0) } }
macro_rules! bin { ($($t:ident $f:ident $o:tt)*) => { $(impl $t for Fl { type Output = Fl; fn $f(self, o: Fl) -> Fl { cb(Site::Arith); Fl(self.0 $o o.0) } })* } }
bin! { Add add + Sub sub - Mul mul * Div div / Rem rem % }
impl Neg for Fl { type Output = Fl; fn neg(self) -> Fl { cb(Site::Arith); Fl(-self.0) } }
impl Zero for Fl { fn zero() -> Fl { cb(Site::Const); Fl(0.0) } fn is_zero(&self) -> bool { cb(Site::Cmp); self.0 == 0.0 } }
impl One for Fl { fn one() -> Fl { cb(Site::Const); Fl(1.0) } }
impl Num for Fl { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Fl, ()> { Err(()) } }
impl ToPrimitive for Fl { fn to_i64(&self) -> Option<i64> { self.0.to_i64() } fn to_u64(&self) -> Option<u64> { self.0.to_u64() } fn to_f64(&self) -> Option<f64> { Some(self.0) } }
impl NumCast for Fl { fn from<T: ToPrimitive>(n: T) -> Option<Fl> { n.to_f64().map(Fl) } }
macro_rules! float {
    ([$($k:ident)*] [$($u:ident)*] [$($b:ident)*] [$($q:ident)*]) => {
        impl Float for Fl {
            $(fn $k() -> Fl { cb(Site::Const); Fl(<f64 as Float>::$k()) })*
            $(fn $u(self) -> Fl { cb(Site::Arith); Fl(Float::$u(self.0)) })*
            $(fn $b(self, o: Fl) -> Fl { cb(Site::Arith); Fl(Float::$b(self.0, o.0)) })*
            $(fn $q(self) -> bool { cb(Site::Cmp); Float::$q(self.0) })*
            fn classify(self) -> FpCategory { self.0.classify() }
            fn mul_add(self, a: Fl, b: Fl) -> Fl { cb(Site::Arith); Fl(self.0.mul_add(a.0, b.0)) }
            fn powi(self, n: i32) -> Fl { cb(Site::Arith); Fl(self.0.powi(n)) }
            #[allow(deprecated)]
            fn abs_sub(self, o: Fl) -> Fl { cb(Site::Arith); Fl((self.0 - o.0).max(0.0)) }
            fn sin_cos(self) -> (Fl, Fl) { cb(Site::Arith); (Fl(self.0.sin()), Fl(self.0.cos())) }
            fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.0) }
        }
    };
}
float! {
    [nan infinity neg_infinity neg_zero min_value min_positive_value max_value]
    [floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh]
    [powf log max min hypot atan2]
    [is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative]
}
