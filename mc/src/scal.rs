//! Custom element types: the instrumentation seam.
use rustdct::rustfft::num_traits::{FloatConst, FromPrimitive, Num, One, Signed, Zero};
use std::cell::Cell;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};

/// Implements every trait a rust_dct element type needs from: lift(f64), add, sub, mul, div, neg.
#[macro_export]
macro_rules! impl_scalar {
    (#[$inl:meta] $t:ty, lift=$lift:expr, add=$add:expr, sub=$sub:expr, mul=$mul:expr, div=$div:expr, neg=$neg:expr, eq=$eq:expr, sign=$sign:expr) => {
        impl Add for $t { type Output = $t; #[$inl] fn add(self, o: $t) -> $t { ($add)(self, o) } }
        impl Sub for $t { type Output = $t; #[$inl] fn sub(self, o: $t) -> $t { ($sub)(self, o) } }
        impl Mul for $t { type Output = $t; #[$inl] fn mul(self, o: $t) -> $t { ($mul)(self, o) } }
        impl Div for $t { type Output = $t; #[$inl] fn div(self, o: $t) -> $t { ($div)(self, o) } }
        impl Rem for $t { type Output = $t; fn rem(self, _o: $t) -> $t { panic!("rem used") } }
        impl Neg for $t { type Output = $t; #[$inl] fn neg(self) -> $t { ($neg)(self) } }
        impl PartialEq for $t { #[inline] fn eq(&self, o: &$t) -> bool { ($eq)(self, o) } }
        impl Zero for $t { fn zero() -> $t { ($lift)(0.0) } fn is_zero(&self) -> bool { *self == <$t>::zero() } }
        impl One for $t { fn one() -> $t { ($lift)(1.0) } }
        impl Num for $t { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<$t, ()> { Err(()) } }
        impl Signed for $t {
            fn abs(&self) -> $t { if ($sign)(self) < 0.0 { -*self } else { *self } }
            fn abs_sub(&self, o: &$t) -> $t { let d = *self - *o; if ($sign)(&d) <= 0.0 { <$t>::zero() } else { d } }
            fn signum(&self) -> $t { let s: f64 = ($sign)(self); ($lift)(if s > 0.0 { 1.0 } else if s < 0.0 { -1.0 } else { 0.0 }) }
            fn is_positive(&self) -> bool { ($sign)(self) > 0.0 }
            fn is_negative(&self) -> bool { ($sign)(self) < 0.0 }
        }
        impl FromPrimitive for $t {
            fn from_i64(n: i64) -> Option<$t> { Some(($lift)(n as f64)) }
            fn from_u64(n: u64) -> Option<$t> { Some(($lift)(n as f64)) }
            fn from_f64(n: f64) -> Option<$t> { Some(($lift)(n)) }
        }
        impl FloatConst for $t {
            fn E() -> $t { ($lift)(std::f64::consts::E) }
            fn FRAC_1_PI() -> $t { ($lift)(std::f64::consts::FRAC_1_PI) }
            fn FRAC_1_SQRT_2() -> $t { ($lift)(std::f64::consts::FRAC_1_SQRT_2) }
            fn FRAC_2_PI() -> $t { ($lift)(std::f64::consts::FRAC_2_PI) }
            fn FRAC_2_SQRT_PI() -> $t { ($lift)(std::f64::consts::FRAC_2_SQRT_PI) }
            fn FRAC_PI_2() -> $t { ($lift)(std::f64::consts::FRAC_PI_2) }
            fn FRAC_PI_3() -> $t { ($lift)(std::f64::consts::FRAC_PI_3) }
            fn FRAC_PI_4() -> $t { ($lift)(std::f64::consts::FRAC_PI_4) }
            fn FRAC_PI_6() -> $t { ($lift)(std::f64::consts::FRAC_PI_6) }
            fn FRAC_PI_8() -> $t { ($lift)(std::f64::consts::FRAC_PI_8) }
            fn LN_10() -> $t { ($lift)(std::f64::consts::LN_10) }
            fn LN_2() -> $t { ($lift)(std::f64::consts::LN_2) }
            fn LOG10_E() -> $t { ($lift)(std::f64::consts::LOG10_E) }
            fn LOG2_E() -> $t { ($lift)(std::f64::consts::LOG2_E) }
            fn PI() -> $t { ($lift)(std::f64::consts::PI) }
            fn SQRT_2() -> $t { ($lift)(std::f64::consts::SQRT_2) }
        }
    };
}

// ---------------------------------------------------------------- probe scalar (C12, C13, C17)
thread_local! {
    pub static OPS: Cell<u64> = const { Cell::new(0) };
    pub static LIFTS: Cell<u64> = const { Cell::new(0) };
}
#[inline]
fn tick() {
    OPS.with(|c| c.set(c.get() + 1));
}
/// f64 that counts arithmetic operations and conversions of constants from f64.
#[derive(Clone, Copy, Debug)]
pub struct Cnt(pub f64);
impl_scalar!(#[inline] Cnt,
    lift = |v: f64| { LIFTS.with(|c| c.set(c.get() + 1)); Cnt(v) },
    add = |a: Cnt, b: Cnt| { tick(); Cnt(a.0 + b.0) },
    sub = |a: Cnt, b: Cnt| { tick(); Cnt(a.0 - b.0) },
    mul = |a: Cnt, b: Cnt| { tick(); Cnt(a.0 * b.0) },
    div = |a: Cnt, b: Cnt| { tick(); Cnt(a.0 / b.0) },
    neg = |a: Cnt| { tick(); Cnt(-a.0) },
    eq = |a: &Cnt, b: &Cnt| a.0 == b.0,
    sign = |a: &Cnt| a.0);
pub fn ops() -> u64 {
    OPS.with(|c| c.get())
}
pub fn lifts() -> u64 {
    LIFTS.with(|c| c.get())
}

// ---------------------------------------------------------------- fault injection (C12, C22)
thread_local! {
    /// operations left before the next one panics; negative: never
    static FUEL: Cell<i64> = const { Cell::new(-1) };
    static SPENT: Cell<u64> = const { Cell::new(0) };
}
#[inline(never)]
fn burn() {
    SPENT.with(|c| c.set(c.get() + 1));
    FUEL.with(|c| {
        let f = c.get();
        if f == 0 {
            c.set(-1);
            panic!("the number type gave up here");
        }
        if f > 0 {
            c.set(f - 1);
        }
    });
}
/// f64 whose arithmetic and conversions can be made to panic at any chosen point.
#[derive(Clone, Copy, Debug)]
pub struct Flt(pub f64);
impl_scalar!(#[inline] Flt,
    lift = |v: f64| { burn(); Flt(v) },
    add = |a: Flt, b: Flt| { burn(); Flt(a.0 + b.0) },
    sub = |a: Flt, b: Flt| { burn(); Flt(a.0 - b.0) },
    mul = |a: Flt, b: Flt| { burn(); Flt(a.0 * b.0) },
    div = |a: Flt, b: Flt| { burn(); Flt(a.0 / b.0) },
    neg = |a: Flt| { burn(); Flt(-a.0) },
    eq = |a: &Flt, b: &Flt| a.0 == b.0,
    sign = |a: &Flt| a.0);
impl crate::sc::Sc for Flt {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "wrap";
    const NANV: Flt = Flt(f64::NAN);
    fn of(v: f64) -> Flt {
        Flt(v)
    }
    fn f(self) -> f64 {
        self.0
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
}
/// Run f with the number type set to panic at operation `at` (counted from 0); true when it got that far.
pub fn faulty(at: u64, f: impl FnOnce()) -> bool {
    FUEL.with(|c| c.set(at as i64));
    let r = crate::engine::catch(f);
    FUEL.with(|c| c.set(-1));
    r.is_err()
}
/// operations (conversions included) f performs on Flt
pub fn steps<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let s = SPENT.with(|c| c.get());
    let r = f();
    (r, SPENT.with(|c| c.get()) - s)
}

// ---------------------------------------------------------------- plain f64 newtype
/// f64 behind a user-defined type (odd size, so that layout assumptions show).
#[derive(Clone, Copy, Debug)]
pub struct Wrap {
    pub v: f64,
    pub tag: u8,
}
#[inline]
fn wr(v: f64) -> Wrap {
    Wrap { v, tag: 7 }
}
impl_scalar!(#[inline(never)] Wrap, lift = wr,
    add = |a: Wrap, b: Wrap| wr(a.v + b.v), sub = |a: Wrap, b: Wrap| wr(a.v - b.v),
    mul = |a: Wrap, b: Wrap| wr(a.v * b.v), div = |a: Wrap, b: Wrap| wr(a.v / b.v),
    neg = |a: Wrap| wr(-a.v), eq = |a: &Wrap, b: &Wrap| a.v == b.v, sign = |a: &Wrap| a.v);
impl Wrap {
    pub fn of(v: f64) -> Wrap {
        wr(v)
    }
}

impl crate::sc::Sc for Cnt {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "cnt";
    const NANV: Cnt = Cnt(f64::NAN);
    fn of(v: f64) -> Cnt {
        Cnt(v)
    }
    fn f(self) -> f64 {
        self.0
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
}
impl crate::sc::Sc for Wrap {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "wrap";
    const NANV: Wrap = Wrap { v: f64::NAN, tag: 7 };
    fn of(v: f64) -> Wrap {
        wr(v)
    }
    fn f(self) -> f64 {
        self.v
    }
    fn bits(self) -> u64 {
        self.v.to_bits()
    }
}

