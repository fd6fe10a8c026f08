//! The built-in element types behind one small trait.
use rustdct::DctNum;
pub trait Sc: DctNum {
    const EPS: f64;
    const NAME: &'static str;
    const NANV: Self;
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
}
impl Sc for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    const NANV: f32 = f32::NAN;
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
impl Sc for f64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    const NANV: f64 = f64::NAN;
    fn of(v: f64) -> f64 {
        v
    }
    fn f(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
pub fn tov<T: Sc>(x: &[f64]) -> Vec<T> {
    x.iter().map(|v| T::of(*v)).collect()
}
pub fn tof<T: Sc>(x: &[T]) -> Vec<f64> {
    x.iter().map(|v| v.f()).collect()
}
pub fn norm(x: &[f64]) -> f64 {
    x.iter().map(|v| v * v).sum::<f64>().sqrt()
}
pub fn bitsv<T: Sc>(x: &[T]) -> Vec<u64> {
    x.iter().map(|v| v.bits()).collect()
}
/// position of first bitwise difference (any two NaNs count as equal)
pub fn diff_bits<T: Sc>(a: &[T], b: &[T]) -> Option<usize> {
    (0..a.len().max(b.len())).find(|&i| match (a.get(i), b.get(i)) {
        (Some(x), Some(y)) => x.bits() != y.bits() && !(x.f().is_nan() && y.f().is_nan()),
        _ => true,
    })
}
/// Worst |got-want| relative to eps*scale; Err when it exceeds c.  NaN/inf always fail.
pub fn compare<T: Sc>(got: &[T], want: &[f64], scale: f64, c: f64) -> Result<f64, String> {
    if got.len() != want.len() {
        return Err(format!("length {} instead of {}", got.len(), want.len()));
    }
    let mut worst = 0.0f64;
    let mut at = usize::MAX;
    for i in 0..got.len() {
        let e = (got[i].f() - want[i]).abs();
        if !(e <= worst) {
            worst = if e.is_nan() { f64::INFINITY } else { e };
            at = i;
        }
    }
    let r = if worst == 0.0 { 0.0 } else { worst / (T::EPS * scale) };
    if !(r <= c) {
        return Err(format!(
            "output[{}] = {:e}, reference {:e}; error is {:.3e} x eps x scale, allowed {:.3e}",
            at, got[at].f(), want[at], r, c
        ));
    }
    Ok(r)
}
/// tolerance scale for an input of 2-norm nx, transform length n
pub fn scale(nx: f64, n: usize) -> f64 {
    nx * ((n as f64).log2() + 2.0)
}
/// the same, also allowing for the rounding of individually large outputs
pub fn scale2(x: &[f64], want: &[f64], n: usize) -> f64 {
    let m = want.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    scale(norm(x).max(m), n)
}
#[macro_export]
macro_rules! by_type {
    ($ty:expr, $f:ident ( $($a:expr),* )) => {
        match $ty {
            "f32" => $f::<f32>($($a),*),
            "f64" => $f::<f64>($($a),*),
            t => panic!("harness: type {}", t),
        }
    };
}
