//! Wider user types (feature `types`: only C19 needs them, and they cost build time).
use rustdct::rustfft::num_traits::{FloatConst, FromPrimitive, Num, One, Signed, Zero};
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};

// ---------------------------------------------------------------- packed scalar
pub const LANES: usize = 8;
/// Eight independent f64 lanes; constants broadcast, so one call computes eight columns.
#[derive(Clone, Copy, Debug)]
#[repr(align(64))]
pub struct Pack(pub [f64; LANES]);
#[inline]
fn lanes(f: impl Fn(usize) -> f64) -> Pack {
    let mut r = [0.0; LANES];
    for (i, x) in r.iter_mut().enumerate() {
        *x = f(i)
    }
    Pack(r)
}
crate::impl_scalar!(#[inline(never)] Pack, lift = |v: f64| Pack([v; LANES]),
    add = |a: Pack, b: Pack| lanes(|i| a.0[i] + b.0[i]), sub = |a: Pack, b: Pack| lanes(|i| a.0[i] - b.0[i]),
    mul = |a: Pack, b: Pack| lanes(|i| a.0[i] * b.0[i]), div = |a: Pack, b: Pack| lanes(|i| a.0[i] / b.0[i]),
    neg = |a: Pack| lanes(|i| -a.0[i]), eq = |a: &Pack, b: &Pack| a.0 == b.0, sign = |a: &Pack| a.0[0]);

// ---------------------------------------------------------------- double-double
/// Unevaluated sum hi+lo, about 106 bits.
#[derive(Clone, Copy, Debug)]
pub struct DD {
    pub hi: f64,
    pub lo: f64,
}
#[inline]
pub fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline]
fn quick(a: f64, b: f64) -> DD {
    let s = a + b;
    DD { hi: s, lo: b - (s - a) }
}
impl DD {
    pub fn of(v: f64) -> DD {
        DD { hi: v, lo: 0.0 }
    }
    pub fn add2(a: DD, b: DD) -> DD {
        let (s, e) = two_sum(a.hi, b.hi);
        let (t, f) = two_sum(a.lo, b.lo);
        let r = quick(s, e + t);
        quick(r.hi, r.lo + f)
    }
    pub fn mul2(a: DD, b: DD) -> DD {
        let p = a.hi * b.hi;
        let e = a.hi.mul_add(b.hi, -p);
        quick(p, e + (a.hi * b.lo + a.lo * b.hi))
    }
    pub fn neg2(a: DD) -> DD {
        DD { hi: -a.hi, lo: -a.lo }
    }
    pub fn div2(a: DD, b: DD) -> DD {
        let q1 = a.hi / b.hi;
        let r = DD::add2(a, DD::neg2(DD::mul2(DD::of(q1), b)));
        let q2 = r.hi / b.hi;
        let r = DD::add2(r, DD::neg2(DD::mul2(DD::of(q2), b)));
        let q3 = r.hi / b.hi;
        DD::add2(quick(q1, q2), DD::of(q3))
    }
}
crate::impl_scalar!(#[inline(never)] DD, lift = DD::of,
    add = DD::add2, sub = |a: DD, b: DD| DD::add2(a, DD::neg2(b)), mul = DD::mul2, div = DD::div2, neg = DD::neg2,
    eq = |a: &DD, b: &DD| a.hi == b.hi && a.lo == b.lo,
    sign = |a: &DD| if a.hi != 0.0 { a.hi } else { a.lo });

// ---------------------------------------------------------------- fixed point
/// Signed fixed point with 50 fractional bits: no NaN, no infinities, no rounding to even, no exponent.
#[derive(Clone, Copy, Debug)]
pub struct Fix(pub i128);
pub const FIX_BITS: u32 = 50;
impl Fix {
    pub fn of(v: f64) -> Fix {
        assert!(v.is_finite() && v.abs() < 1e6, "harness: fixed point overflow {}", v);
        Fix((v * (1u64 << FIX_BITS) as f64) as i128)
    }
    pub fn f(self) -> f64 {
        self.0 as f64 / (1u64 << FIX_BITS) as f64
    }
}
crate::impl_scalar!(#[inline(never)] Fix, lift = Fix::of,
    add = |a: Fix, b: Fix| Fix(a.0 + b.0), sub = |a: Fix, b: Fix| Fix(a.0 - b.0),
    mul = |a: Fix, b: Fix| Fix((a.0 * b.0) >> FIX_BITS), div = |a: Fix, b: Fix| Fix((a.0 << FIX_BITS) / b.0),
    neg = |a: Fix| Fix(-a.0), eq = |a: &Fix, b: &Fix| a.0 == b.0,
    sign = |a: &Fix| a.0.signum() as f64);

// ---------------------------------------------------------------- look-alikes
/// As large as an f64 and computing like one, but stored scrambled: reading its bytes as an f64 is wrong.
#[derive(Clone, Copy, Debug)]
pub struct Like64(u64);
const K64: u64 = 0x5bd1_e995_9e37_79b9;
impl Like64 {
    pub fn of(v: f64) -> Like64 {
        Like64((v.to_bits() ^ K64).rotate_left(29))
    }
    pub fn f(self) -> f64 {
        f64::from_bits(self.0.rotate_right(29) ^ K64)
    }
}
crate::impl_scalar!(#[inline(never)] Like64, lift = Like64::of,
    add = |a: Like64, b: Like64| Like64::of(a.f() + b.f()), sub = |a: Like64, b: Like64| Like64::of(a.f() - b.f()),
    mul = |a: Like64, b: Like64| Like64::of(a.f() * b.f()), div = |a: Like64, b: Like64| Like64::of(a.f() / b.f()),
    neg = |a: Like64| Like64::of(-a.f()), eq = |a: &Like64, b: &Like64| a.f() == b.f(), sign = |a: &Like64| a.f());
/// The same for f32.
#[derive(Clone, Copy, Debug)]
pub struct Like32(u32);
const K32: u32 = 0x9e37_79b9;
impl Like32 {
    pub fn of(v: f64) -> Like32 {
        Like32(((v as f32).to_bits() ^ K32).rotate_left(13))
    }
    pub fn g(self) -> f32 {
        f32::from_bits(self.0.rotate_right(13) ^ K32)
    }
}
crate::impl_scalar!(#[inline(never)] Like32, lift = Like32::of,
    add = |a: Like32, b: Like32| Like32::of((a.g() + b.g()) as f64), sub = |a: Like32, b: Like32| Like32::of((a.g() - b.g()) as f64),
    mul = |a: Like32, b: Like32| Like32::of((a.g() * b.g()) as f64), div = |a: Like32, b: Like32| Like32::of((a.g() / b.g()) as f64),
    neg = |a: Like32| Like32::of((-a.g()) as f64), eq = |a: &Like32, b: &Like32| a.g() == b.g(), sign = |a: &Like32| a.g() as f64);
impl crate::sc::Sc for Like64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "like64";
    const NANV: Like64 = Like64((0x7ff8_0000_0000_0000u64 ^ K64).rotate_left(29));
    fn of(v: f64) -> Like64 {
        Like64::of(v)
    }
    fn f(self) -> f64 {
        Like64::f(self)
    }
    fn bits(self) -> u64 {
        Like64::f(self).to_bits()
    }
}
impl crate::sc::Sc for Like32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "like32";
    const NANV: Like32 = Like32((0x7fc0_0000u32 ^ K32).rotate_left(13));
    fn of(v: f64) -> Like32 {
        Like32::of(v)
    }
    fn f(self) -> f64 {
        self.g() as f64
    }
    fn bits(self) -> u64 {
        self.g().to_bits() as u64
    }
}
